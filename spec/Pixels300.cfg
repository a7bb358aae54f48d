SPECIFICATION Spec
CONSTANT MaxH = 300
INVARIANT Order
