#include "attach.hpp"
namespace ch {
CH_ATT(MV, void, SinkP<MV>)
CH_ATT(MV, void, std::reference_wrapper<SinkP<MV>>)
}
