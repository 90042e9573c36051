#include "c15.hpp"
MC_REGISTER {
    mc::add_config("int.value.words<left>", int_words<left>, 4);
    mc::add_config("int.probability.words<left>", int_prob_words<left>, 4);
    mc::add_config("int.value.runs<left>", int_runs<left>, 1);
    mc::add_config("int.probability.runs<left>", int_prob_runs<left>, 2);
}
