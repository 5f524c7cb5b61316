#include "attach.hpp"
namespace ch {
CH_ATT(MV, MV, FnP<MV>)
}
