class Builder:
    """what MPhys's builders derive from"""
