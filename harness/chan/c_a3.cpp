#include "attach.hpp"
namespace ch {
CH_ATT(CV, void, SinkP<CV>)
CH_ATT(CV, void, std::reference_wrapper<SinkP<CV>>)
}
