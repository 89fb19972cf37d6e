// string members of the standard library, instrumented for the race-detecting replays
#include <string>
template class std::basic_string<char>;
