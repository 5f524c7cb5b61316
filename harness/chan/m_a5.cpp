#include "attach.hpp"
namespace ch {
CH_ATT(MV, MV, std::reference_wrapper<AyP<MV>>)
}
