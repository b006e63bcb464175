// C19: small data directories
#define SMALL
#include "c19_kanjiData.cpp"
