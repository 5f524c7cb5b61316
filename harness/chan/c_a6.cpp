#include "attach.hpp"
namespace ch {
CH_ATT(CV, CV, AynP<CV>)
CH_ATT(CV, CV, stlab::function_process<CV(CV)>)
}
