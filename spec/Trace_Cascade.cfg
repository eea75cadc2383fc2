INIT InitT
NEXT Next
