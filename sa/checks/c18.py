"""Interprocedural ownership typestate over the IR: memory obtained on a path is released, returned or stored where the caller reaches it at every exit of it"""
from . import _own
# (analysed function, what it obtains): why no path does what the abstraction allows
ACCEPT = {
    ('apop_bootstrap_cov_base', 'ret:apop_data_alloc_base'),   # the list of draws is made at the first usable draw; the exit in question is taken when there was none
    ('set_starting_point', 'new:malloc'),                      # stored in a settings group that the one caller has just added; the abstraction also follows a group that is not there
    ('probit_prep', 'ret:apop_data_pack_base'),                # its numbers become the starting point the settings group refers to, which settings groups never own
    # parts that the object owns only under a condition it records itself: a count of users, a flag, a size
    ('apop_cdf_settings_free', 'part at 16'), ('apop_dconstrain_settings_free', 'part at 40'), ('apop_kernel_density_settings_free', 'part at 8'),
    ('apop_kernel_density_settings_free', 'part at 16'), ('apop_mcmc_settings_free', 'part at 56'), ('apop_model_free', 'part at 208'),
    ('apop_pmf_settings_free', 'part at 0'), ('apop_pmf_settings_free', 'part at 32'),
}
def run(P, R, tier):
    _own.collect(P, R, {'leak:memory'}, ACCEPT)
