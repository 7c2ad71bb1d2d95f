// Entities moved by the simulator, on small road networks: the mode says which of their properties is looked at.
#define NPC_MAIN
#include "npc.hpp"
int main(int argc, char ** argv)
{
  int mode = 0;
  for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--mode") mode = std::atoi(argv[i + 1]);
  return mc::run(argc, argv, [&] { if (mode == 0) npc::speed(); if (mode == 1) npc::book(); if (mode == 2) npc::drives(); if (mode == 3) npc::track(); });
}
