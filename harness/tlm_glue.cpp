// Compiles the third level manager (a program of its own) into the network harness.
#define main discotec_third_level_manager_main
#include "thirdLevelManager.cpp"
#undef main

#include "tlm_glue.hpp"

std::string runThirdLevelManager(bool fromFile, const std::string& paramFile, size_t chunksize,
                                 const std::string& statsFile) {
  try {
    Params params;
    if (fromFile) {
      params.loadFromFile(paramFile);
    } else {
      std::string a0 = "thirdLevelManager", a1 = "--port=0", a2 = "--numSystems=2",
                  a3 = "--chunksize=" + std::to_string(chunksize);
      char* argv[] = {&a0[0], &a1[0], &a2[0], &a3[0], nullptr};
      params.loadFromCmd(4, argv);
    }
    combigrid::ThirdLevelManager manager(params);
    manager.init();
    manager.runtimeLoop();
    manager.writeStatistics(statsFile);
  } catch (const std::exception& e) {
    return e.what();
  }
  return "";
}
