// C29 with the scheduler (controlled threads).
#define WITH_SCHEDULER
#include "c29_store.cpp"
