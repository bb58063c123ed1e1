CONSTANT MaxLen = 24
CONSTANT Profiles = {2, 5}
CONSTANT Recipes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 21, 22, 23}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
