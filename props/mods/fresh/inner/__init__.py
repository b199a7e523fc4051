K = 3
