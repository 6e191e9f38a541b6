LEVELS = {}
NOTES = {}
