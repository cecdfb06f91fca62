CONSTANT N = 4
