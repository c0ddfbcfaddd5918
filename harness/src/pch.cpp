// builds the precompiled header
