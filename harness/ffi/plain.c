int id(void) { return 1; }
