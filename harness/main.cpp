#include "common.hpp"
int main(int argc, char **argv) { return vf::main_(argc, argv); }
