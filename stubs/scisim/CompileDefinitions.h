#pragma once
#include <string>
namespace CompileDefinitions { extern const std::string GitSHA1, BuildMode, CCompiler, CXXCompiler, FortranCompiler; }
