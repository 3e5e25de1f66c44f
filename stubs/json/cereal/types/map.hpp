#include <cereal/standin.hpp>
