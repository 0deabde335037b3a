EPSILON_0 = 1.0
MU_0 = 1.0
