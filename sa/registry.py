"""Property -> rules."""
from . import rules_layers as rl
from . import rules_ctor as rc
from . import rules_model as rm
from . import rules_state as rs
from . import rules_optim as ro
from . import rules_sched as rsc
from . import rules_loss as rlo, rules_types as rty
from . import rules_ops as rop, rules_elem as rel, rules_cells as rce, rules_nn as rnn, rules_init as rin, rules_lossval as rlv, rules_optval as rov, rules_wrap as rwr

CHECKS = {
    "G07": [rl.rule_is_train],
    "G04": [rl.rule_callbacks],
    "G01": [rl.rule_adjoint, rnn.rule_g01],
    "G02": [rl.rule_pairs, rnn.rule_g02],
    "G03": [rl.rule_params, rnn.rule_g03],
    "G05": [rl.rule_mutation, rnn.rule_g05],
    "G06": [rl.rule_state, rnn.rule_g06],
    "L01": [rc.rule_options, rc.rule_effective, rnn.rule_l01, rin.rule_l01],
    "L02": [rc.rule_init, rin.rule_l02],
    "L03": [rc.rule_containers, rnn.rule_l03],
    "M01": [rm.rule_walk, rm.rule_whole_model],
    "M02": [rm.rule_serialize],
    "M03": [rm.rule_copy],
    "M04": [rs.rule_scopes],
    "M05": [rs.rule_node],
    "M06": [rs.rule_ids],
    "M07": [rs.rule_sharing],
    "M08": [rs.rule_operators],
    "M09": [rs.rule_grad],
    "O01": [ro.rule_isolation],
    "O02": [ro.rule_optimizer],
    "O03": [rsc.rule_settings],
    "O04": [rov.rule_updates, rov.rule_steps],
    "S01": [rsc.rule_schedules],
    "S02": [rsc.rule_plateau],
    "E01": [rlo.rule_loss],
    "E02": [rlv.rule_losses, rlv.rule_targets],
    "T01": [rty.rule_containers],
    "T02": [rty.rule_validators],
    "B01": [rop.rule_interface],
    "B02": [rel.rule_inplace],
    "B03": [rel.rule_derivative, rel.rule_norm],
    "B04": [rel.rule_same, rel.rule_definition, rel.rule_updates],
    "B05": [rce.rule_raw],
    "B06": [rce.rule_bounds],
    "B07": [rce.rule_launch],
    "B08": [rce.rule_linear],
    "B09": [rce.rule_alloc],
    "B10": [rce.rule_batch],
    "N01": [rnn.rule_computes],
    "N02": [rnn.rule_gradients],
    "N03": [rin.rule_initialise, rin.rule_resize],
    "N04": [rin.rule_initializers, rin.rule_values],
    "B11": [rce.rule_sparse],
    "W01": [rwr.rule_recursive, rwr.rule_boundary, rwr.rule_update, rwr.rule_rnn, rwr.rule_state],
}
