SPECIFICATION Spec
CONSTANTS
  P = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
  A = "73eda753299d7d483339d80809a1d80553bda402fffe5bfefffffffefffffffc"
  D = "6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7"
  R = "52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b6"
  EB = "52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b4"
  EC = "6cc624cf865457c3a97c6efd6c17d1078456abcfff36f4e9515c806cdf650b3d"
  Lambda = "13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05"
  Order = "1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1"
CHECK_DEADLOCK FALSE
