#include "c15.hpp"
MC_REGISTER {
    mc::add_config("value.words<right>", value_words<right>, 4);
    mc::add_config("value.runs<right>", value_runs<right>, 1);
    mc::add_config("probability.words<right>", prob_words<right>, 4);
    mc::add_config("probability.runs<right>", prob_runs<right>, 2);
    mc::add_config("value.scaled<right>", value_scaled<right>, 1);
}
