SPECIFICATION Spec
CONSTANTS
  Order = "1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1"
  Lambda = "13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05"
  B11 = "555fe2004be6928e4b02f94a9789181f"
  B12 = "814b3eee55e8f5df8e2591a23d61f44"
  B21 = "-102967ddcabd1ebbf1c4b23447ac3e88"
  B22 = "555fe2004be6928e4b02f94a9789181f"
  Bound = "2eba4af798a290f621f2a9325daf9bb1"
CHECK_DEADLOCK FALSE
