#include "c15.hpp"
MC_REGISTER {
    mc::add_config("value.words<left>", value_words<left>, 4);
    mc::add_config("value.runs<left>", value_runs<left>, 1);
    mc::add_config("probability.words<left>", prob_words<left>, 4);
    mc::add_config("probability.runs<left>", prob_runs<left>, 2);
    mc::add_config("value.scaled<left>", value_scaled<left>, 1);
}
