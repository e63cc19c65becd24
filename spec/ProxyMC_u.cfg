SPECIFICATION Spec
CONSTANTS
  AttrKinds <- AttrT
  Kinds <- KindsWN
  Vals <- ValD
  ConvOf <- ConvD
  Bad <- BadD
  KeyToks <- KeyD
  MaxLen = 1
VIEW View
INVARIANTS InvMirror InvTotal
PROPERTIES PLaws PFlaws
CHECK_DEADLOCK FALSE
