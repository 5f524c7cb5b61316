#include "attach.hpp"
namespace ch {
CH_ATT(CV, CV, std::reference_wrapper<AyP<CV>>)
}
