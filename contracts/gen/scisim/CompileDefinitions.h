// stands in for the header cmake generates from scisim/CompileDefinitions.h.in
#ifndef COMPILE_DEFINITIONS_H
#define COMPILE_DEFINITIONS_H
namespace CompileDefinitions
{
  constexpr char GitSHA1[] = "0000000000000000000000000000000000000000";
  constexpr char BuildMode[] = "Release";
  constexpr char CCompiler[] = "cc";
  constexpr char CXXCompiler[] = "c++";
}
#endif
