SPECIFICATION Spec
CONSTANTS
  AttrKinds <- AttrQ
  Kinds <- KindsDL
  Vals <- ValD
  ConvOf <- ConvD
  Bad <- BadD
  KeyToks <- KeyD
  MaxLen = 2
VIEW View
INVARIANTS InvMirror InvTotal
PROPERTIES PLaws PFlaws
CHECK_DEADLOCK FALSE
