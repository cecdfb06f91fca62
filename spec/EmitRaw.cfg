CONSTANT N = 3
