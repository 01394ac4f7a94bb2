#pragma once
#include <string>
// Runs the third level manager for two systems until both have logged off; returns the text of an exception, if any.
std::string runThirdLevelManager(bool fromFile, const std::string& paramFile, size_t chunksize,
                                 const std::string& statsFile);
