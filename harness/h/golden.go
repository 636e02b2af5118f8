package h

// Concrete descriptions used to compare the engine with the real build.

func goldenSrc(i int) string {
	switch i {
	case 0: // registerification/align/array/subblocks_smaller_than_bus/bus.fbd
		return `# Bus address space must be 0 to 1023, Subblock addres space must be 512 to 1023.
main bus
  align = 1024
  c config
  subblock [4]block
    align = 128
    c config
`
	case 1: // registerification/align/single/one_subblock/bus.fbd
		return `# Bus address space must be 0 to 2047, Subblock addres space must be 1024 to 2047.
main bus
  align = 1024
  c config
  subblock block
    c config
`
	case 2: // registerification/built-in_funcs/bool/bool/bus.fbd
		return `main bus
  c1 config; atomic = bool(0)
  c2 config; atomic = bool(-1)
  c3 config; atomic = bool(7)
`
	case 3: // registerification/built-in_funcs/ceil/ceil/bus.fbd
		return `const int = 8
const float = 15.8

main bus
  c_int config; width = ceil(int)
  c_float config; width = ceil(float)
`
	case 4: // registerification/built-in_funcs/floor/floor/bus.fbd
		return `const int = 8
const float = 15.8

main bus
  c_int config; width = floor(int)
  c_float config; width = floor(float)
`
	case 5: // registerification/built-in_funcs/log10/log10/bus.fbd
		return `const int = 10
const float = 1000.1

main bus
  c_int config; width = log10(int)
  c_float config; width = floor(log10(float))
`
	case 6: // registerification/built-in_funcs/log2/log2/bus.fbd
		return `const int = 131072
const float = 262144.8

main bus
  s_int status; width = log2(int)
  s_float status; width = ceil(log2(float))
`
	case 7: // registerification/config/single/second_gets_next_addr_gap_wide_enough/bus.fbd
		return `# Second config must get the next address even if the gap is wide enough.
# Configs are readable and writable.
# Putting configs in the same register can significantly increase the round trip time, as writing one of them would require RMW operation.
# The address space size decrease is simply not worth the round trip time increase.
main bus
  c1 config; width = 10
  c2 config; width = 8
`
	case 8: // registerification/config/single/second_non_atomic_gets_new_addr_gap_narrower/bus.fbd
		return `# Second config must get the next address when the gap is narrower than the config even if it is non-atomic.
main bus
  c1 config; width = 30
  c2 config; width = 8; atomic = false
`
	case 9: // registerification/proc/empty_proc/no_delay/bus.fbd
		return `main bus
  p proc
`
	case 10: // registerification/proc/empty_proc/with_delay/bus.fbd
		return `main bus
  p proc
    delay = 1 ms
    p param
`
	case 11: // registerification/proc/only_params/two_in_single_reg/bus.fbd
		return `# Params fitting single register must get the same address.
# Element after the proc must get the next address.
main bus
  p proc
    p1 param; width = 10
    p2 param; width = 22
  st status
`
	case 12: // registerification/proc/only_returns/two_in_single_reg/bus.fbd
		return `# Returns fitting single register must get the same address.
# Element after the proc must get the next address.
main bus
  p proc
    a return; width = 17
    b return; width = 15
  st status
`
	case 13: // registerification/proc/params_and_returns/one_param_one_return_same_reg/bus.fbd
		return `# StbAddr and AckAddr must be equal.
# Access masks must not overlap.
main bus
  p proc
    p param;  width = 16
    r return; width = 16
`
	case 14: // registerification/proc/params_and_returns/params_plus_returns_exactly_two_regs/bus.fbd
		return `# All params and returns have access of type SingleSingle.
# Params occupy more than one register, returns occupy less than one register.
# The sum of all widths is exactly two registers.
# StbAddr and AckAddr must be equal.
# Element after the proc must get next address.
main bus
  p proc
    p1 param; width = 20
    p2 param; width = 12
    p3 param; width = 4
    p4 param; width = 8
    r1 return; width = 7
    r2 return; width = 13
  st status
`
	case 15: // registerification/range/proc/params_in_one_reg/bus.fbd
		return `main bus
  p proc
    p1 param; range = 15 # 4 bits
    p2 param; range = 16:128 # 8 bits
    p3 param; range = [1:2**16 - 1] # 16 bits
    p4 param; range = [9:14] # 4 bits
`
	case 16: // registerification/single_line_instantiation/multiple_props/multiple_props/bus.fbd
		return `main bus
  c config; atomic = false; width = 76; init-value = 0
  s status; atomic = true; width = 17
  m mask; atomic = false; width = 128
`
	case 17: // registerification/single_line_instantiation/no_props/no_props/bus.fbd
		return `main bus
  c config
  s status
`
	case 18: // registerification/single_line_instantiation/one_prop/one_prop/bus.fbd
		return `main bus
  c config; width = 17
  s status; atomic = false
`
	case 19: // registerification/status/single/multiple_narrower_than_bus_width/bus.fbd
		return `# Multiple statuses narrower than the bus width must be placed in the same register.
main bus
  s1 status; width = 4
  s2 status; width = 16
  s3 status; width = 3
  s4 status; width = 9
`
	case 20: // registerification/status/single/second_gets_next_addr_gap_narrower/bus.fbd
		return `# Second stauts must get the next address if the gap is not wide enough.
main bus
  s1 status; width = 20
  s2 status; width = 13
`
	case 21: // registerification/tandems/config_irq/irq_in_next_reg/bus.fbd
		return `# Irq must not be placed in the same register with a config.
main bus
  c config; width = 1
  i irq`
	case 22: // registerification/tandems/config_status/configs_plus_statuses_exactly_two_regs/bus.fbd
		return `# Configs and statuses must occupy exactly two registers.
# C1 and S2 must get the first free address, and C2 and S1 must get the next address.
# Access masks must not overlap.
main bus
  c1 config; width = 20
  c2 config; width = 14
  s1 status; width = 18
  s2 status; width = 12
`
	case 23: // registerification/tandems/func_config/func_no_elems_config_gets_next_addr/bus.fbd
		return `# Config right after the proc must get new address even if the proc has no params and returns.
# In such case config cannot be put into the proc register as this would lead to spurious procedure strobes during config write.
main bus
  p proc
  c config
`
	case 24: // registerification/tandems/func_config/last_func_reg_only_return_config_gets_next_addr/bus.fbd
		return `# Config right after the proc must get new address even if the last proc register has only returns.
# In such case config cannot be put into the last proc register as config is readable.
# A config read would lead to spurious acknowledgement generation.
main bus
  p proc
    p1 param; width = 30
    p2 param; width = 2
    r return; width = 8
  c config; width = 8
`
	case 25: // registerification/tandems/func_status/func_one_return_gap_wide_enough_status_gets_next_addr/bus.fbd
		return `# Status right after the proc must get new address even if there are only returns and there is enough space for the status.
# In such case status cannot be put into the proc register as this would lead to spurious procedure acknowledgements during status read.
main bus
  P proc
    r return; width = 8
  S status; width = 4
`
	case 26: // registerification/tandems/func_status/func_only_params_exactly_one_reg_status_gets_next_addr/bus.fbd
		return `# Status right after the proc must get next address when proc occupies exactly one register and has only params.
main bus
  P proc
    a param; width = 28
    b param; width = 3
    c param; width = 1
  St status
`
	case 27: // registerification/tandems/status_irq/second_irq_into_next_reg/bus.fbd
		return `# Three irqs are explicitly cleared, so they can be put into register with a data
# that is read only. However, irqs must not be placed in the same register.
main bus
  s  status; width = 30
  i1 irq
  i2 irq
  i3 irq`
	case 28: // registerification/tandems/stream_config/empty_stream_config_gets_next_addr/bus.fbd
		return `# Config right after the stream must get next address even if the stream is empty.
# Putting the config into the stream strobe addres would lead to spurious stream strobes.
main bus
  s stream
  c config
`
	case 29: // registerification/tandems/stream_config/upstream_gap_wide_enough_config_gets_next_addr/bus.fbd
		return `# Config right after the upstream must get next address even if the gap in the last stream address is wide enough.
# Putting the config into the upstream strobe address would lead to spurious stream strobes during config read.
main bus
  s stream
    r1 return; width = 10
    r2 return; width = 8
  c config; width = 2
`
	case 30: // expr/left_shift_negative_value/bus.fbd
		return `main bus
  c config; width = 1 << -1
`
	case 31: // expr/left_shift_right_operand_float/bus.fbd
		return `main bus
  c config; width = 1 << 3.4
`
	case 32: // expr/range_left_bound_range/bus.fbd
		return `main bus
  c config; range = 0:1:2
`
	case 33: // expr/range_right_bound_float/bus.fbd
		return `main bus
  c config; range = 0:3.14
`
	case 34: // expr/right_shift_negative_value/bus.fbd
		return `main bus
  c config; width = 1 >> -9
`
	case 35: // expr/right_shift_right_operand_time/bus.fbd
		return `main bus
  c config; width = 1 >> 10 ns
`
	case 36: // instantiating/align_invalid_type/bus.fbd
		return `main bus
  align = 3.14
`
	case 37: // instantiating/align_negative_value/bus.fbd
		return `main bus
  align = -10
`
	case 38: // instantiating/atomic_invalid_type/bus.fbd
		return `main bus
  m mask
    atomic = 10 ns
`
	case 39: // instantiating/blackbox_size_not_set/bus.fbd
		return `main bus
  bb blackbox
`
	case 40: // instantiating/clear_invalid_type/bus.fbd
		return `main bus
  i irq
    clear = b"1010"
`
	case 41: // instantiating/clear_invalid_value/bus.fbd
		return `main bus
  i irq
    clear = "Lorem"
`
	case 42: // instantiating/delay_invalid_type/bus.fbd
		return `main bus
  p proc
    delay = "lorem"
`
	case 43: // instantiating/empty_group/bus.fbd
		return `main bus
  type g_t group
  grp g_t`
	case 44: // instantiating/invalid_bus_instance_name/bus.fbd
		return `foo bus
`
	case 45: // instantiating/irq_invalid_in_trigger/bus.fbd
		return `main bus
  i irq
    in-trigger = "abc"
`
	case 46: // instantiating/irq_invalid_out_trigger/bus.fbd
		return `main bus
  i irq
    out-trigger = "abc"
`
	case 47: // instantiating/irq_out_trigger_mismatch/bus.fbd
		return `main bus
  g group
    i1 irq
    i2 irq; out-trigger = "Edge"`
	case 48: // instantiating/main_width_prop_invalid_type/bus.fbd
		return `main bus
  width = "A"
`
	case 49: // instantiating/masters_invalid_type/bus.fbd
		return `main bus
  masters = 3.14
`
	case 50: // instantiating/masters_negative_value/bus.fbd
		return `main bus
  masters = -10
`
	case 51: // instantiating/negative_array_size/bus.fbd
		return `main bus
  s [-1] status
`
	case 52: // instantiating/range_empty_list/bus.fbd
		return `main bus
  c config; range = []
`
	case 53: // instantiating/range_invalid_type/bus.fbd
		return `main bus
  c config; range = "str"
`
	case 54: // instantiating/range_invalid_type_in_list/bus.fbd
		return `main bus
  c config; range = [0:1, "7"]
`
	case 55: // instantiating/range_left_bound_greater/bus.fbd
		return `main bus
  c config
    range = 12:1
`
	case 56: // instantiating/range_left_bound_greater_in_list/bus.fbd
		return `main bus
  c config
    range = [0:12, 50:14]
`
	case 57: // instantiating/range_negative_left_bound/bus.fbd
		return `main bus
  c config
    range = -1:0
`
	case 58: // instantiating/range_negative_left_bound_in_list/bus.fbd
		return `main bus
  c config
    range = [0:12, -1:2]
`
	case 59: // instantiating/range_negative_right_bound/bus.fbd
		return `main bus
  c config
    range = 0:-100
`
	case 60: // instantiating/range_negative_right_bound_in_list/bus.fbd
		return `main bus
  c config
    range = [0:12, 2:-4]
`
	case 61: // instantiating/range_negative_value/bus.fbd
		return `main bus
  c config; range = -127
`
	case 62: // instantiating/reset_invalid_type/bus.fbd
		return `main bus
  reset = 3.14
`
	case 63: // instantiating/reset_invalid_value/bus.fbd
		return `main bus
  reset = "Abc"
`
	case 64: // instantiating/reset_value_invalid_type/bus.fbd
		return `main bus
  c config; reset-value = 3.14
`
	case 65: // instantiating/static_without_default/bus.fbd
		return `main bus
  s static
`
	case 66: // instantiating/stream_conflict_param_return/bus.fbd
		return `type my_param param

main bus
  my_stream stream
    p my_param
    r return
`
	case 67: // instantiating/stream_conflict_return_param/bus.fbd
		return `main bus
  my_stream stream
    r return
    p param
`
	case 68: // instantiating/trigger_invalid_type/bus.fbd
		return `main bus
  i irq
    in-trigger = 15 ns
`
	case 69: // instantiating/type_not_found_in_package/bus.fbd
		return `main bus
  c abc
`
	case 70: // instantiating/virtual_irq_group/bus.fbd
		return `main bus
  g group
    virtual = true
    i irq`
	case 71: // instantiating/virtual_param_group/bus.fbd
		return `main bus
  g group
    virtual = true
    p param`
	case 72: // instantiating/virtual_return_group/bus.fbd
		return `main bus
  g group
    virtual = true
    r return`
	case 73: // instantiating/width_invalid_type/bus.fbd
		return `main bus
  c config; width = 10.12
`
	case 74: // instantiating/width_negative_value/bus.fbd
		return `main bus
  s status
    width = -10
`
	case 75: // parsing/argument_assigned_twice/bus.fbd
		return `type my_bus(m=2) bus
  masters = m

main my_bus(m=1, m=2)
`
	case 76: // parsing/argument_order/bus.fbd
		return `type my_bus(a=1, b=2, c=3) bus
  masters = a

main my_bus(c=2, 1)
`
	case 77: // parsing/base_type_with_argument_list/bus.fbd
		return `type my_mask mask(a=2)
  width = 10
`
	case 78: // parsing/const_redefinition_in_file/bus.fbd
		return `const A = 1

const A = 2
`
	case 79: // parsing/const_redefinition_in_inst/bus.fbd
		return `main bus
  const a = 1
  const a = 2
`
	case 80: // parsing/const_redefinition_in_pkg/bus.fbd
		return `main bus
`
	case 81: // parsing/const_redefinition_in_pkg/fbd/fbd-pkg/a.fbd
		return `const FOO = 1
`
	case 82: // parsing/const_redefinition_in_pkg/fbd/fbd-pkg/b.fbd
		return `const FOO = 2
`
	case 83: // parsing/const_redefinition_in_type/bus.fbd
		return `type my_bus bus
  const a = 1
  const a = 2
`
	case 84: // parsing/extra_space_at_line_end/bus.fbd
		return `main bus 
`
	case 85: // parsing/extra_space_at_line_end_empty_line/bus.fbd
		return `main bus
  C config
    width = 10
 
    atomic = false
`
	case 86: // parsing/extra_spaces_at_line_end/bus.fbd
		return `main bus
  C config     
`
	case 87: // parsing/extra_spaces_at_line_end_empty_line/bus.fbd
		return `main bus
  S status
     
    width = 8
`
	case 88: // parsing/invalid_call_arg_count/bus.fbd
		return `main bus
  s status; width = log2()
`
	case 89: // parsing/invalid_functionality_at_package_level/bus.fbd
		return `foo status
  width = 10
`
	case 90: // parsing/invalid_type_name/bus.fbd
		return `type mask mask
`
	case 91: // parsing/missing_array_size_expression/bus.fbd
		return `main bus
  st []status
`
	case 92: // parsing/missing_type/bus.fbd
		return `main bus
  my_proc
    p param; width = 10
`
	case 93: // parsing/parameter_defined_twice/bus.fbd
		return `type my_mask(a, a) mask
`
	case 94: // parsing/parameter_order/bus.fbd
		return `type my_config(width=10, foo) config
  width = width
`
	case 95: // parsing/property_assigned_twice/bus.fbd
		return `type my_status status
  width = 1
  width = 2
`
	case 96: // parsing/reinstantiation_in_file/bus.fbd
		return `main bus
main bus
`
	case 97: // parsing/reinstantiation_in_inst/bus.fbd
		return `main bus
  s status
  s static
`
	case 98: // parsing/reinstantiation_in_type/bus.fbd
		return `type t block
  s status
  s static
`
	case 99: // parsing/space_in_indent/bus.fbd
		return `type my_mask mask
    width = 1
`
	case 100: // parsing/trailing_semicolon/bus.fbd
		return `main bus
  st status width = 10; atomic = true;
`
	case 101: // parsing/type_redefinition_in_file/bus.fbd
		return `type t config
type t static
`
	case 102: // parsing/type_redefinition_in_inst/bus.fbd
		return `main bus
  type t config
  type t static
`
	case 103: // parsing/type_redefinition_in_pkg/bus.fbd
		return `main bus
`
	case 104: // parsing/type_redefinition_in_pkg/fbd/fbd-pkg/a.fbd
		return `type my_type mask
`
	case 105: // parsing/type_redefinition_in_pkg/fbd/fbd-pkg/b.fbd
		return `type my_type stream
`
	case 106: // parsing/type_redefinition_in_type/bus.fbd
		return `type a bus
  type b status
  type b config
`
	case 107: // parsing/unknown_call_func_name/bus.fbd
		return `main bus
  c config; width = foo()
`
	case 108: // parsing/unterminated_bin_bit_string/bus.fbd
		return `main bus
  c config; init-value = b"1100
`
	case 109: // parsing/unterminated_hex_bit_string/bus.fbd
		return `main bus
  c config; init-value = x"1100; width = 64
`
	case 110: // parsing/unterminated_octal_bit_string/bus.fbd
		return `main bus
  c config; init-value = o"1100 ; width = 64
`
	case 111: // parsing/width_range_conflict/bus.fbd
		return `main bus
  cfg config
    width = 2
    range = [0, 10]
`
	}
	return ""
}

const goldenN = 112
