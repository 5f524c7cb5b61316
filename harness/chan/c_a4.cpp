#include "attach.hpp"
namespace ch {
CH_ATT(CV, CV, AyP<CV>)
}
