SPECIFICATION Spec
INVARIANTS ListLaws ViewLaws StringLaws WordLaws
CHECK_DEADLOCK FALSE
