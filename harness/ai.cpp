#include <HXLibs/ai/openai.hpp>
