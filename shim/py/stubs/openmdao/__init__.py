"""A stand-in for OpenMDAO (not installed here): components, groups, options and vectors, enough to run the
components of /repo/miso the way OpenMDAO does."""
