SPECIFICATION Spec
CONSTANTS
  P = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
  A = "73eda753299d7d483339d80809a1d80553bda402fffe5bfefffffffefffffffc"
  D = "6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7"
  R = "52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b6"
  EB = "52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b4"
  EC = "6cc624cf865457c3a97c6efd6c17d1078456abcfff36f4e9515c806cdf650b3d"
  NB = 32
  BB = 8
  LB = 4
  MaxInt = "7fffffff"
  MaxPre = 8
CHECK_DEADLOCK FALSE
