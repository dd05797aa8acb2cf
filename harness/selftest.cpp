#include "vh.hpp"
int main(int argc, char **argv) { return vh::run_main(argc, argv, {{"noop", [](vh::Ctx &c) { c.nt(); c.mix(c.rng.next()); }, 10, 10}}); }
