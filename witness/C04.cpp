#include "arrays.hpp"
void wit::run() { all<Elem>("Elem", true, false); all<int>("int", true, false); all<double>("double", true, false); }
