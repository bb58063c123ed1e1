CONSTANT MaxLen = 20
CONSTANT Profiles = {2, 3, 4}
CONSTANT Recipes = {1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 13, 14, 15}
INIT Init
NEXT NextS
CHECK_DEADLOCK FALSE
