// C21: small data directories
#define SMALL
#include "c21_order.cpp"
