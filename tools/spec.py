"""Single source of the properties, their harnesses and their bounds."""
PROPS = []
NOT_APPLICABLE = []
FIX_COMMITS = []

def P(**k):
    PROPS.append(k)

REG = 'internal/reg/'
ACC = ('access layout constructors', 'pkg/fbdl/types/access.go: MakeSingleAccess, MakeArray*Access')

P(id='P01', title='No two functionalities share a register bit',
  statement='In every block of a compiled description, each bit of each register is assigned to at most one functionality. This holds whatever the widths, counts, kinds, atomicity and order of the functionalities, and also for bits reused in the unoccupied parts of registers.',
  over='inputs', quant='All functionalities of a block: every width, item count, kind, atomicity flag and number of instances, and every probed register and bit.',
  why='Placement depends on the interaction of many widths and of the pool of partially used registers; a test fixes a handful of widths, while a clash appears only for particular combinations.',
  files=[REG + 'reg.go', REG + 'status.go', REG + 'config.go', 'internal/gap/pool.go', 'pkg/fbdl/types/access.go'],
  mech=[('pool of partially occupied registers', 'internal/gap/pool.go'), ('per kind placement', REG + 'config.go, mask.go, static.go, status.go, irq.go, proc.go, stream.go'), ACC],
  harn=[('RegGaps', 'up to 4 (quick) or 5 (thorough) single configs, statics, statuses and irqs sharing registers, widths 1..1.5 bus widths symbolic, bus width 8 and 32 (thorough 2, 8, 24, 32, 64)', ['end', 'irq']),
        ('RegMany', '3 configs, 3 statuses and an irq (thorough 3 configs, 2 statics, 3 statuses and 2 irqs) sharing registers, widths 1..32 not growing within one kind, symbolic'),
        ('RegMix', 'any combination of up to 4 (thorough 6) options out of proc, stream, config, mask, static, status, two irqs of each kind and timestamp; widths 1..2*bus+3 symbolic; bus 32 (thorough 8, 16, 32, 64)'),
        ('RegArrays', 'one array (count 1..2^20 symbolic, every width 1..2*bus+3) and one single of each kind; bus 8, 32 (thorough 1, 8, 16, 24, 32, 64)'),
        ('RegProc', 'a procedure with up to 2 parameters and 2 returns (thorough 3 and 3), arrays and singles, with and without delay, next to another procedure and a config; widths symbolic'),
        ('RegMembers', 'a procedure or stream with a single, an array (count 1..2^20 symbolic, widths 1..bus+3) and a single'),
        ('RegStream', 'a stream with up to 3 parameters or returns, next to another stream and a status; widths symbolic'),
        ('RegSub', 'a bus with a config and a status and two blocks in it (side by side or nested), each with the same and an irq or a procedure; widths 1..bus symbolic; bus 32 (thorough 8, 32)'),
        ('RegWidths', 'one functionality of each kind (single or taking several registers, widths 1..5 bus widths+3 symbolic) with a further one, with and without timestamp; bus widths 1, 2, 7, 16, 24, 64, 100 (thorough 21 widths from 1 to 1000)')],
  outside='More functionalities per block than the bounds; groups and black boxes, which the tool does not place; kinds whose arrays the tool reports as not implemented.',
  level_note='Every width, count and probed bit within the bounds is decided by the solver on the real placement code.')

P(id='P02', title='Functionalities stay inside their block; ID and TIMESTAMP are pinned',
  statement='Every register of every functionality lies inside the registers counted as the own size of its block, above the registers reserved for the description identifier. In the bus block the identifier always starts at bit 0 of register 0 and an added timestamp always takes the last own register.',
  over='inputs', quant='All functionalities of the bus block: every width, count, kind, atomicity and combination, with and without a timestamp.',
  why='The end of the last functionality depends on the widths of all of them; tests compare a few fixed maps.',
  files=[REG + 'reg.go', REG + 'assign.go', REG + 'id_and_ts.go'],
  mech=[('own size accounting', REG + 'reg.go'), ('identifier and timestamp', REG + 'id_and_ts.go'), ACC],
  harn=[('RegGaps', 'as P01', ['end', 'irq']), ('RegMix', 'as P01, including the timestamp'), ('RegArrays', 'as P01'), ('RegProc', 'as P01'), ('RegMembers', 'as P01'), ('RegStream', 'as P01'), ('RegSub', 'as P01'), ('RegWidths', 'as P01')],
  outside='As P01; the value of the identifier and of the timestamp.',
  level_note='Solver verdict over all widths and counts within the bounds.')

P(id='P03', title='Side-effect registers are safe: call, exit, strobe and clear addresses',
  statement='The address that calls a procedure, exits it, strobes a stream or clears an interrupt belongs only to that procedure, stream or interrupt; writing it can never alter or trigger another functionality. The call and strobe of something with members falls on the last register of its last member, and members occupy ascending registers in declaration order.',
  over='inputs', quant='All procedures, streams and interrupts with members of every width and count, next to every other kind of functionality.',
  why='Sharing happens only when a gap of the right width is left in a register that has a write side effect; hand-picked widths rarely leave one.',
  files=[REG + 'proc.go', REG + 'stream.go', REG + 'irq.go', REG + 'status.go', 'internal/gap/pool.go'],
  mech=[('call and exit addresses', REG + 'proc.go'), ('strobe address', REG + 'stream.go'), ('clear address and write safe gaps', REG + 'irq.go, internal/gap/pool.go')],
  harn=[('RegGaps', 'as P01', ['end', 'irq']), ('RegMany', 'as P01'), ('RegMix', 'as P01'), ('RegProc', 'as P01'), ('RegMembers', 'as P01'), ('RegStream', 'as P01'), ('RegSub', 'as P01'), ('RegWidths', 'as P01')],
  outside='As P01; behaviour of generated hardware.',
  level_note='Solver verdict over all widths and counts within the bounds.')

P(id='P04', title='Access descriptions are exact: every declared bit has a defined place',
  statement='For every functionality the published access description (start and end register and bit, register and item counts and widths) is internally consistent with the documented layout of its access type. It provides room for exactly the declared number of items of the declared width.',
  over='inputs', quant='All widths, counts, start positions and access types.',
  why='The arithmetic differs for every width, count and start bit modulo the bus width; tests sample a few.',
  files=['pkg/fbdl/types/access.go', REG + 'config.go', REG + 'status.go', REG + 'static.go'],
  mech=[ACC, ('choice of the access type', REG + 'config.go, status.go, static.go, mask.go, proc.go, stream.go')],
  harn=[('RegArrays', 'as P01'), ('RegGaps', 'as P01', ['end', 'irq']), ('RegMix', 'as P01'), ('RegProc', 'as P01'), ('RegMembers', 'as P01'), ('RegStream', 'as P01'), ('RegSub', 'as P01'), ('RegWidths', 'as P01'), ('RegHuge', 'one functionality of any kind or member of a procedure or stream of any width up to 2^63-1, or an array of any count up to 2^63-1 with width 1, 7, 17, 32, 33 or 2^40, with a status; bus 32')],
  outside='As P01.',
  level_note='Solver verdict over all widths and counts within the bounds.')

P(id='P05', title='Block address spaces nest and never overlap',
  statement='The address space of a block lies inside that of its parent, spans exactly its item count times its aligned size, does not overlap the address space of any sibling and does not cover any register owned directly by the parent. The bus starts at address 0.',
  over='inputs', quant='Trees of blocks with every own size, item count and alignment within the bounds, and every probed parent register.',
  why='The placement of subblocks depends on the rounding of all sizes; overlap shows only for particular size combinations.',
  files=[REG + 'assign.go', REG + 'reg.go', 'internal/util/util.go'],
  mech=[('assignment of address spaces', REG + 'assign.go'), ('size computation', REG + 'reg.go')],
  harn=[('RegBlocks', 'a bus with up to 3 subblocks of 0..100 (thorough 5000) own registers, arrays of up to 6 items; all sizes symbolic'),
        ('RegDeep', 'a chain of three levels with arrays at two of them and an optional fourth block'),
        ('RegAligns', 'two subblocks with explicit alignments on the bus (0, 1, 2, 4, 16, 128) and on the blocks'),
        ('RegHugeBlocks', 'two blocks side by side or nested, one with any count up to 2^63-1, the other with 1, 3, 2^31 or 2^62 items; alignments none, 4, 2^40, 2^62: rejected or exact')],
  outside='Deeper trees; more than three siblings; own sizes over the bound.',
  level_note='Solver verdict over all sizes and counts within the bounds.')

P(id='P06', title='Block sizes and alignment are exact',
  statement='The own size counts exactly the registers a block needs, the cumulated size adds those of all items of all subblocks, and the aligned size is at least that and respects the alignment in force: a power of two by default, otherwise a multiple of the requested alignment. Blocks start at addresses respecting the same alignment and no more space is taken than the rounding of the parts requires.',
  over='inputs', quant='Trees of blocks with every own size, item count and alignment within the bounds.',
  why='Rounding errors show only for particular sizes, for instance beyond the exactness of floating point or just at powers of two.',
  files=[REG + 'reg.go', REG + 'assign.go', 'internal/util/util.go'],
  mech=[('size computation', REG + 'reg.go'), ('alignment helpers', 'internal/util/util.go')],
  harn=[('RegBlocks', 'as P05'), ('RegDeep', 'as P05'), ('RegAligns', 'as P05'), ('RegHuge', 'as P04'), ('RegHugeBlocks', 'as P05')],
  outside='As P05.',
  level_note='Solver verdict over all sizes and counts within the bounds.')

P(id='P08', title='Address assignment never crashes',
  statement='Every description made of the supported kinds of functionality receives an address map, or is rejected with an error when it is too large to be addressed: assignment terminates without a crash for every width, count and combination.',
  over='inputs', quant='All functionality mixes of the bounds of the address map properties.',
  why='A crash needs a particular relation of width, count and bus width.',
  files=[REG + 'reg.go', REG + 'status.go', 'internal/gap/pool.go', 'pkg/fbdl/types/access.go'],
  mech=[('placement', REG)],
  harn=[('RegArrays', 'as P01'), ('RegGaps', 'as P01', ['end', 'irq']), ('RegMany', 'as P01'), ('RegMix', 'as P01'), ('RegProc', 'as P01'), ('RegMembers', 'as P01'), ('RegStream', 'as P01'), ('RegSub', 'as P01'), ('RegWidths', 'as P01'), ('RegBlocks', 'as P05'), ('RegHuge', 'as P04'), ('RegHugeBlocks', 'as P05')],
  outside='Kinds the tool itself reports as not implemented: arrays of masks and irqs, arrays of configs and statics wider than the bus, non-atomic config arrays.',
  level_note='Every panic site on every path within the bounds is decided infeasible by the solver.')

INS = 'internal/ins/'
SRC = 'harness compiles a whole description text: tokenizer, parser, instantiation and address assignment are all executed symbolically'

P(id='P07', title='Compiled description contains exactly what was declared',
  statement='The compiled bus lists every functionality declared in the description, and nothing else but the identifier, with its declared kind, name, array flag, item count and width, the width defaulting to the width of the bus. This holds for functionalities declared directly, in blocks at any depth, in procedures, streams and groups, and inherited along a chain of types in whatever order the types are written (one of them may give the size of an array); all kinds but blocks are listed in declaration order.',
  over='programs', quant='All descriptions built of the kinds of functionality within the bounds, with every count and width.',
  why='A lost, duplicated or altered functionality shows only for a particular combination of kind, nesting, type chain, default and position; golden files fix some of them.',
  files=[INS + 'block.go', INS + 'ins.go', INS + 'common.go', 'internal/prs/prs.go', 'pkg/fbdl/fn/block.go'],
  mech=[('instantiation per kind', INS), ('type chain', INS + 'type_chain.go, ins.go: resolveToBaseType'), ('lists of a block', 'internal/util/block')],
  harn=[('KeepFlat', 'a bus of width 8 or 32 with 2 (thorough 3) functionalities of any of 14 kinds, named in alphabetic order or against it; counts 1..20 and widths 1..2 bus symbolic or default'),
        ('KeepTypes', 'a bus derived from two types, functionality of any kind at each level, the types written in 2 (thorough 6) orders'),
        ('KeepNested', 'block arrays in block arrays, any kind at both levels'),
        ('KeepMembers', 'a procedure, stream or group with up to 2 (thorough 3) members of any legal kind, count and width'),
        ('KeepWords', 'a functionality with any of 29 names equal to keywords and units or beginning like one, after any of 7 lines, in a bus, block, group, procedure or stream; widths and counts symbolic'),
        ('TypeArrays', 'an instance of a chain of two types of six kinds with the size of the array in any one or two of the three, given by a literal, a parameter or a constant; sizes 1..17')],
  outside='More functionalities than the bounds; the addresses (other properties).',
  level_note='Solver verdict for every count and width of every combination within the bounds.')

P(id='P09', title='Every description carries one valid identifier, and a timestamp on request',
  statement='Every compiled bus contains exactly one identifier. It is as wide as the bus but at most 32 bits, is placed at the start of the address space and its value is a bit string of exactly that width. A timestamp is added exactly when it is asked for, once, as wide as the bus but at most 36 bits, with a value of exactly that width.',
  over='configurations', quant='All bus widths of the bounds, all hash values and all times.',
  why='The value depends on the hash and on the width, and the string form on the width modulo 4; the default width only is tested.',
  files=['internal/reg/id_and_ts.go', 'internal/reg/reg.go', 'internal/val/bit_str.go'],
  mech=[('identifier', 'internal/reg/id_and_ts.go'), ('bit string construction', 'internal/val')],
  harn=[('IdValue', 'bus widths 1..70 (quick: 18 of them), any functionality, any 32 bit hash, any time up to 2^40 s, with and without the timestamp')],
  outside='How well the hash tells descriptions apart.',
  level_note='The hash is a free 32 bit symbolic value; solver verdict over all of them.')

P(id='P10', title='A property is accepted exactly when its kind, type and domain allow it',
  statement='A property is accepted only on the kinds of functionality which the language reference lists for it, with a value of its type and within its domain; everything else is rejected with an error and never crashes the tool. An accepted value is stored unchanged and a property which is not set gets its documented default.',
  over='inputs', quant='All pairs of a kind and a property, all integers, strings and times within the bounds.',
  why='Domains have boundary values (powers of two, zero, negative numbers, 64 bit times) and case sensitive strings; tests try one legal and one illegal value.',
  files=[INS + 'check.go', 'internal/util/util.go', INS + 'common.go'],
  mech=[('table of properties', 'internal/util/util.go: IsValidProperty'), ('value checks', INS + 'check.go'), ('defaults', INS + 'fill*Props')],
  harn=[('PropTable', 'all 13 kinds, 21 properties and 8 types of values; numbers 1..2^20'),
        ('PropInt', 'align, masters, size and width of every kind; absent, 0..2^40 and negative (widths up to 100)'),
        ('PropStr', 'every string of up to 9 printable characters (quick: lengths 0, 1 and those of the legal values) for clear, triggers and reset'),
        ('PropDelay', 'delay 0..2^62 in each unit'),
        ('PropEnable', 'add-enable and enable values in both orders')],
  outside='Expressions as values (covered by the expression properties); width 0; the bus width over 64.',
  level_note='Solver verdict over all values within the bounds.')

P(id='P11', title='Width derived from a range is exact and ranges are proper',
  statement='The width of a functionality with a range is the smallest one that holds every value of the range, at least one bit, and the range is published as written. A range with a negative bound or with the left bound over the right one is rejected, and so is a range together with a width in one body or along a chain of types.',
  over='inputs', quant='All bounds of ranges up to 2^62 and lists of up to four ranges.',
  why='Only powers of two and large values reveal a wrong rounding.',
  files=['pkg/fbdl/types/range.go', INS + 'check.go', INS + 'config.go', INS + 'param.go'],
  mech=[('bit width of a range', 'pkg/fbdl/types: BitWidth'), ('checks', INS + 'check.go')],
  harn=[('RangeWidth', 'single value, range, lists of 1 to 4 ranges; bounds 0..2^62+5 and negative'), ('RangeConflict', 'range and width in one body or in a type and its instance, in both orders, with other properties between, before and after, in one line or indented')],
  outside='Longer lists; bounds over 2^62+5.',
  level_note='Solver verdict over all bounds.')

P(id='P12', title='Initial, read and reset values are represented exactly or rejected',
  statement='An integer initial, read, reset or enable value is published as a bit string of exactly the declared width holding the two\'s complement of the integer, and it is rejected exactly when the width cannot represent it. A bit string value is published as written and rejected exactly when it is too wide or contains an illegal digit.',
  over='inputs', quant='All 63 bit integers of both signs for the widths of the bounds, all bit strings of up to 3 (thorough 5) characters.',
  why='Depends on sign, width modulo 4 and boundary values such as -2^(w-1) or widths around 64.',
  files=[INS + 'common.go', 'internal/val/bit_str.go', INS + 'check.go', INS + 'config.go', INS + 'mask.go', INS + 'static.go', INS + 'status.go', INS + 'irq.go'],
  mech=[('conversion', INS + 'common.go: processValue'), ('bit strings', 'internal/val/bit_str.go')],
  harn=[('InitInt', 'integers -2^63+1..2^63-1, 13 widths 1..68 (thorough 32 widths 1..100), every kind and value property'), ('InitStr', 'any printable characters after each of 6 prefixes, width 1..24'), ('InitHuge', 'four integers with any width 2^61..2^63-1: rejected')],
  outside='Widths between 101 and 2^61 (over 2^24 values are rejected as not supported); longer bit strings; values given by expressions.',
  level_note='Solver verdict over all integers and characters.')

P(id='P13', title='Type parameters bind to the right arguments',
  statement='Each parameter of a type takes the value of its argument, positional arguments in order, named ones by name, and its default otherwise; a missing, repeated, unknown or superfluous argument or a positional one after a named one is rejected. An argument is evaluated where it is written and a parameter is visible in its type only, even when equally named symbols exist, and a property set anywhere in a chain of types holds unless it is set twice, which is rejected.',
  over='programs', quant='All lists of arguments of up to 3 (thorough 4) and all values; six shapes of nested types with all choices of equal names.',
  why='Wrong binding shows only when names collide or when orders and defaults mix; values must differ for it to be visible.',
  files=[INS + 'args.go', INS + 'type_chain.go', INS + 'ins.go', 'internal/prs/type.go', 'internal/prs/inst.go'],
  mech=[('resolution of arguments', INS + 'args.go'), ('scope of symbols', 'internal/prs')],
  harn=[('TypeArgs', 'a type with 3 parameters and 0..3 defaults; any list of up to 3 (thorough 4) arguments, named, positional or unknown; values symbolic'),
        ('ArgNames', 'two parameters and a reference or a named argument with arbitrary names of 1 or 2 (thorough 3) characters', ['end', 'none']),
        ('TypeNest', 'parameters passed through up to 3 types, names of parameters, constants of the package and of the type equal or not; values symbolic'),
        ('PropTwice', 'any three (thorough four) settings of five properties in one body, in one line, indented or mixed, in an instance or a type; a width symbolic', ['end']),
        ('TypeOverride', 'every legal property of every kind set at any subset of 3 levels')],
  outside='More parameters and levels.',
  level_note='Values symbolic, structure exhaustive within the bounds, solver verdict on all.')

P(id='P14', title='Two symbols of one scope never share a name',
  statement='A description in which two functionalities, constants, types, parameters or members of one scope have the same name is rejected, also when they come from different types of a chain. Differently named symbols are accepted, except that no functionality of the bus may take the name of the identifier.',
  over='inputs', quant='All pairs of identifiers within the bounds and all pairs of kinds.',
  why='Each kind is checked by separate code, so a missing check shows for one pair of kinds in one kind of scope only.',
  files=['internal/util/block/block.go', 'internal/util/group/group.go', 'internal/util/constContainer', 'internal/prs/scope.go', INS + 'block.go'],
  mech=[('uniqueness checks', 'internal/util/block, group, proc, stream; internal/prs: AddSymbol')],
  harn=[('DupNames', 'two symbols with arbitrary names of 1 and 1 or 1 and 2 (thorough up to 3) characters, with or without a third symbol before or between them, 17 kinds of scope, 10 kinds of functionality'), ('DupReserved', 'every name of 2 characters, every kind')],
  outside='Longer names; the name of the timestamp.',
  level_note='Names are symbolic characters; solver verdict over all of them.')

P(id='P15', title='Rules of groups do not depend on the order of members',
  statement='A group is accepted exactly when its members belong to one class (data, interrupts, parameters or returns), is virtual only with data members, and has a single output trigger for all its interrupts. The verdict does not depend on the order of the members or on which type of a chain they or the properties come from.',
  over='programs', quant='All groups of up to 3 members of any kind, and up to 4 (thorough 6) interrupts, spread over two types.',
  why='The checks are made while members are added, so a hole shows in one order only.',
  files=['internal/util/group/group.go', INS + 'group.go'],
  mech=[('rules of groups', 'internal/util/group/group.go, ' + INS + 'group.go: checkGroup')],
  harn=[('GroupOrder', '2 or 3 members of 7 kinds over two levels, triggers and virtual set at either level; widths 1..32 symbolic'), ('GroupIrqs', '2 to 4 (thorough 6) interrupts with any output triggers over two levels')],
  outside='Larger groups; placement of groups, which the tool does not do.',
  level_note='All structures within the bounds; widths symbolic.')

P(id='P16', title='Only legal nesting of functionalities is accepted',
  statement='A functionality may be instantiated inside another one exactly when the language reference allows that pair of kinds; anything else is rejected, whether written directly, through types or spread over them. The members of a stream are all parameters or all returns.',
  over='programs', quant='All pairs of kinds in all direct and derived forms, all streams and procedures of up to 3 (thorough 5) members.',
  why='Each kind has its own code for inner functionalities; illegal pairs are hardly tested.',
  files=['internal/util/util.go', INS + 'common.go', INS + 'stream.go', INS + 'proc.go', INS + 'group.go', INS + 'block.go'],
  mech=[('table of inner kinds', 'internal/util/util.go: IsValidInnerType'), ('checks per kind', INS)],
  harn=[('Nesting', 'all 13 x 13 pairs, outer and inner written directly or by a type; width 1..32 symbolic', ['end', 'accepted']), ('StreamMix', 'members spread over a type and its instance')],
  outside='Deeper nesting than two levels.',
  level_note='All pairs within the bounds; widths symbolic.')

P(id='P17', title='Constants are published with exactly the declared value and scope',
  statement='Every constant of an exportable type (integer, float, boolean, string, list of integers or of booleans) appears in the result exactly once, in the package, bus, block or group it is declared in, with exactly the declared value and type. Literals of every base keep their value and strings keep every byte; constants of other types are rejected.',
  over='inputs', quant='All 63 bit integers of both signs, all strings of the bounds, every exportable type and every place of declaration.',
  why='Precision is lost only for particular values (beyond 2^53, negative, leading zeros, escape characters) and only in some of the scopes; tests look at small numbers in one place.',
  files=['internal/util/constContainer', 'pkg/fbdl/cnst', 'internal/prs/const.go', 'internal/prs/expr.go', 'internal/val', INS + 'const.go', 'pkg/fbdl/compile.go'],
  mech=[('export of constants', 'pkg/fbdl/cnst, internal/util/constContainer'), ('literals', 'internal/prs/expr.go'), ('values', 'internal/val')],
  harn=[('ConstExact', 'two constants of any of 20 forms (quick: 7 for the second), 9 places: package file, package of two files, bus, type and instance, block, group; integers 0..2^63-1, strings of 3 characters symbolic'),
        ('ConstInt', 'literals of 7 notations with up to 4 (thorough 6) symbolic digits after 0, 1 or up to 12 fixed ones'),
        ('ConstStr', 'all strings of 4 (thorough 7) bytes below 128 but the quotation mark')],
  outside='Bytes over 127 in strings; float literals other than the listed ones; lists of more than 3 elements.',
  level_note='Solver verdict over all values and characters within the bounds.')

P(id='P18', title='Integer expressions are exact or rejected, never silently wrong',
  statement='The value of an integer expression equals the mathematical result whenever that fits 64 bits, and an expression whose result does not fit, or is not defined such as a division by zero, is rejected. Operators and functions applied to operands they are not defined for are rejected.',
  over='inputs', quant='All 64 bit integer operands of both signs for sums, differences, signs and rounding; products, quotients, shifts and powers within the bounds.',
  why='Overflow and rounding faults need boundary operands such as -2^63 or quotients beyond 2^53; random or hand-picked values miss them.',
  files=['internal/prs/expr.go', 'internal/prs/func.go', 'internal/val'],
  mech=[('binary and unary operators', 'internal/prs/expr.go'), ('built-in functions', 'internal/prs/func.go')],
  harn=[('ArithAdd', '+, - and signs on all 64 bit integers'),
        ('ArithMul', 'products of a 64 bit integer and 10 fixed ones of both signs, and of two integers up to 2^20 (thorough 2^31)'),
        ('ArithDiv', 'quotients and remainders of a 64 bit integer and 8 fixed ones of both signs, and of two integers up to 2^10 (thorough 2^16); inexact quotients up to 2^53'),
        ('ArithShift', 'any 64 bit integer shifted by -100..100'),
        ('ArithExp', '14 bases -3..10, exponents -1..12 and 51..64 (thorough -1..122)'),
        ('ArithFunc', 'ceil, floor, bool, log2, log10; integers of 64 bits, quotients of numbers up to 2^16 by 9 fixed ones'),
        ('ArithTypes', '8 types of operands, 13 binary and 3 unary operators, 5 functions with 0..2 arguments')],
  outside='Products and quotients of two arbitrary 64 bit integers; float results (their type only); log10 of values.',
  level_note='Solver verdict over all operands within the bounds.')

P(id='P19', title='Expressions follow the documented precedence and grouping',
  statement='An expression is evaluated with the documented precedence of operators, the leftmost first among equals, and parentheses override it. Spaces and superfluous parentheses never change a value, and every kind of operand (literal, constant, imported constant, call, parenthesis, signed value) works on either side of every operator.',
  over='programs', quant='All expressions of up to 3 (thorough 4) operands over 7 operators, with a parenthesis and a sign at any place, for all operand values of the bounds.',
  why='A wrong grouping gives the right value for most operands and for most pairs of operators; there are hundreds of shapes.',
  files=['internal/ast/expr.go', 'internal/prs/expr.go', 'internal/tok/parse.go'],
  mech=[('precedence climbing', 'internal/ast/expr.go'), ('operator precedence', 'internal/tok/token.go')],
  harn=[('Precedence', '3 (thorough 4) operands 1..6, all operators of + - * % << >> **, a parenthesis and a sign at any place, with and without spaces'),
        ('ParenLayout', 'three operands up to 1000, redundant parentheses and spaces around every subexpression'),
        ('OperandKinds', '9 kinds of operand on both sides of 4 operators, signed or not')],
  outside='Longer expressions; comparison, logical and bitwise operators, which the tool reports as not implemented; quotients (see P18).',
  level_note='Solver verdict over all operand values of every shape within the bounds.')

P(id='P20', title='Self-referential definitions are rejected; all others terminate',
  statement='A constant that depends on itself, directly or through any number of others, in any file, scope or package, is rejected with an error, and so is a type or a parameter default that depends on itself and is used by the bus. Definitions that refer to each other without a cycle are accepted in any order of writing and have the value the dependencies give. The compiler terminates in every case.',
  over='programs', quant='All graphs of references between up to 3 constants, types or parameters and long chains of them, in every scope and every order, for all values.',
  why='A cycle makes the tool run forever or overflow the stack; there are many places where one can be closed, each with its own code, and tests contain none.',
  files=['internal/ins/type_chain.go', 'internal/ins/ins.go', 'internal/prs', 'internal/val'],
  mech=[('evaluation of constants', 'internal/prs/const.go, internal/prs/expr.go'), ('type chains', INS + 'type_chain.go'), ('arguments and parameters', 'internal/prs/func.go, internal/ins')],
  harn=[('CycleConst', 'any graph of 3 constants with up to two references each, through 4 forms of expression, in a package, in nested scopes or in several packages; values symbolic', ['end', 'cyclic']),
        ('CycleType', 'any chain graph of 3 types with and without parameters, in one file, several files or several packages, used three ways', ['end', 'cyclic']),
        ('CycleForms', 'two constants, the reference between them through each of 27 forms of expression (also those in which an operand cannot change the value), a cycle through every pair of forms; values symbolic', ['end', 'cyclic']),
        ('CycleInner', 'any graph of types of blocks or groups containing instances of each other', ['end', 'cyclic']),
        ('CycleParam', 'any graph of 3 parameters whose defaults refer to each other, one given or none', ['end', 'cyclic']),
        ('CycleLong', 'chains of 12 (thorough 40) constants, types or blocks in both orders, closed to a cycle at any place or not at all; values symbolic', ['end', 'cyclic'])],
  outside='Graphs with more than 3 definitions other than long chains; types and parameters nobody uses.',
  level_note='All graphs within the bounds; values symbolic; nontermination is decided by the bound on the call depth and on steps.')

P(id='P21', title='A name always refers to the innermost visible definition',
  statement='A name of a constant or type refers to the definition of the innermost enclosing scope that has one, wherever in that scope it is written; a name inside a type body refers to the scope of the definition of the type, not of its use. An import binds exactly the package whose path ends with the given elements, in its own file only.',
  over='programs', quant='All subsets of the nested scopes defining the name, with any values, all places of use and of definition of types, and all import texts of the bounds.',
  why='Each test has one definition of a name; a wrong scope is visible only when several definitions with different values compete.',
  files=['internal/prs/scope.go', 'internal/prs', 'internal/ins', 'internal/prs/pkg.go'],
  mech=[('scopes and symbols', 'internal/prs'), ('package discovery and imports', 'internal/prs/pkg.go, internal/prs/pre.go, internal/prs/import.go')],
  harn=[('ScopeConst', 'constants in any subset of package, other file, bus, block, group; use before or after the definition; values symbolic'),
        ('ScopeType', 'the same for types of singles and arrays, in blocks and groups'),
        ('ScopeDef', 'types defined in the package, in the bus or in another package and used elsewhere, with and without parameters of the same name'),
        ('NameMatch', 'two definitions and a reference with arbitrary names of 1 or 2 (thorough 3) characters in 12 settings: constants, types, parameters, named arguments, imports; values symbolic', ['end', 'none']),
        ('ImportPath', '14 layouts of package directories and import paths, with and without an alias and a second import'),
        ('ImportFile', 'two files of a package with any imports of 3 packages; references to symbols of the other file and of packages the other file imports'),
        ('WordNames', 'constants, imports and parameters with any of 26 names equal to names of properties and units or beginning like keywords or numbers, used in 17 forms next to operators; values symbolic'),
        ('ImportAny', 'import texts of up to 10 arbitrary characters')],
  outside='Two packages of one name, which the tool reports as not implemented; deeper nesting than package, bus, block and group.',
  level_note='All structures within the bounds; values and import texts symbolic.')

P(id='P22', title='Any input is accepted or rejected with an error, never a crash or a hang',
  statement='Whatever the text of a description is, the compiler terminates and either produces a result or reports an error of its own. It never crashes and never loops.',
  over='inputs', quant='All texts that differ from descriptions using every construct in one (thorough two) arbitrary bytes at any position or that end at any position, or have up to three arbitrary tokens or a value of any type at any kind of place.',
  why='A crash needs one odd byte in one state of the tokenizer, parser or instantiator; there are thousands of states and 256 bytes in each.',
  files=['internal/tok', 'internal/ast', 'internal/prs', 'internal/ins', 'internal/reg', 'pkg/fbdl/compile.go'],
  mech=[('tokenizer', 'internal/tok/parse.go'), ('parser', 'internal/ast'), ('semantics', 'internal/prs, internal/ins')],
  harn=[('AnyByte', 'an arbitrary byte (thorough also two) at any position of 4 descriptions, inserted or instead of 1 or 5 bytes', ['end', 'accepted']),
        ('AnyCut', 'the 4 descriptions cut at any position, followed by an arbitrary byte', ['end', 'accepted']),
        ('AnyTokens', 'any 2 (in expressions and in thorough 3) of 34 tokens and keywords at 12 kinds of place', ['end', 'accepted']),
        ('AnyValue', 'every property of every kind, alone or with a width or an enable, and every count, default and argument, with 30 values of all types', ['end', 'accepted']),
        ('InitHuge', 'as P12')],
  outside='Texts far from the 4 descriptions; exhaustion of memory by huge counts; features the tool reports as unimplemented.',
  level_note='Solver verdict over all bytes at all positions of the samples.')

P(id='P23', title='Every token and error carries its exact text and place',
  statement='The tokens of a text cover it in order with nothing skipped but blanks and comments, each is the longest possible one and has exactly the line and column at which it starts. An error that shows a line marks there the exact place at fault, in the right file: a syntax error the first token that cannot follow, an error of meaning the token to blame.',
  over='inputs', quant='All texts made of 15 templates with 2 (thorough 3) arbitrary bytes; a misplaced piece of text or the end at every place of a description using every construct; every kind of mistake of meaning in every file.',
  why='Positions go wrong only after particular characters such as line breaks inside strings, and tokens only for particular neighbours.',
  files=['internal/tok/parse.go', 'internal/tok/token.go', 'internal/tok/error.go'],
  mech=[('tokenizer', 'internal/tok/parse.go'), ('error messages', 'internal/tok/error.go')],
  harn=[('Tokens', '15 templates of all kinds of token with 2 (thorough 3) arbitrary bytes at any of their marked places', ['end', 'error']),
        ('ErrorSyntax', '8 pieces of text which fit nowhere or the end of the text (3 forms) at any of 155 places of a description, with or without the rest of it, after 0, 2 or 10 lines; comments symbolic', ['end', 'accepted', 'cut']),
        ('ProgramErrors', '79 mistakes of meaning (also expressions of up to 5 operators) in the main file or in 3 files of another package, used directly or by a type of another file, after 0, 2 or 97 lines; comments symbolic', ['end', 'prefix'])],
  outside='Mistakes of meaning which are reported without an excerpt (unknown names, some arguments, values that do not fit); texts far from the templates.',
  level_note='Solver verdict over all bytes within the bounds.')

P(id='P24', title='Layout, comments and the form of writing never change the meaning',
  statement='Blank lines, comments, the number of spaces between tokens, the end of the file and the choice between the one-line and the indented form of properties, constants and imports do not change the result of the compilation.',
  over='programs', quant='All positions of the additional layout in descriptions using every construct, with arbitrary characters in comments.',
  why='Every construct has its own handling of newlines and indentation; a fault shows for one layout at one place.',
  files=['internal/tok/parse.go', 'internal/ast'],
  mech=[('newlines, indents and comments', 'internal/tok/parse.go'), ('bodies and one-line forms', 'internal/ast')],
  harn=[('Layout', 'any of 6 line ends at any line of a description, every form of constants and properties; widths and characters of comments symbolic'),
        ('Spaces', 'a description of all constructs with 0 to 2 more spaces at all gaps and another number at any one, three ends of the file'),
        ('SpacesMore', 'any number of spaces (0, 1 or 3) at each of 66 places of a description with imports, lists, times, ranges, members, strings and bit strings, three ways to end all lines and three ends of the file; values symbolic', ['end']),
        ('LayoutImports', 'any of 6 line ends at any line of two imports in 6 forms, before or after the bus, with or without a newline at the end of the file; widths and characters of comments symbolic')],
  outside='Comments at an indentation lower than the body they are in, which the tool rejects.',
  level_note='All layouts within the bounds; values and comments symbolic.')

P(id='P25', title='Documentation is kept letter for letter with its functionality',
  statement='The comment lines directly above a functionality, and only those, are published as its documentation, letter for letter, one line each. Other comments are never attached to anything.',
  over='inputs', quant='All sequences of comment, blank and other lines of the bounds with arbitrary characters, for every kind and place of functionalities.',
  why='Whether a comment documents something depends on the lines around it and on the construct; tests hold few of the combinations.',
  files=['internal/ast', 'internal/tok', 'internal/ins', 'pkg/fbdl/fn'],
  mech=[('documentation comments', 'internal/ast/doc.go, internal/ast'), ('publication', 'internal/ins, pkg/fbdl/fn')],
  harn=[('Docs', 'up to 3 (thorough 4) lines before 8 kinds of functionality; characters symbolic'),
        ('DocPlaces', 'documentation of the bus, members, instances of types and in bodies of types; characters symbolic')],
  outside='Documentation of constants and types, which is not published; comments of more than the bound of characters.',
  level_note='Solver verdict over all characters within the bounds.')

P(id='P26', title='The result of a compilation is a function of the sources alone',
  statement='Compiling the same files gives the same result, or is rejected, whatever the scheduling of the concurrent parsing, the iteration order of maps and the earlier compilations in the process are. The concurrent parts have no data race and no deadlock, and a result once returned is not changed by later compilations.',
  over='schedules', quant='All orders of the goroutines of the parsing and all map iteration orders with a bounded number of deviations, on descriptions of several packages and files, valid and faulty.',
  why='A test runs under the one schedule and map order the runtime happens to choose; a wrong order or a race shows in few of them.',
  files=['internal/prs/pre.go', 'internal/prs/pkg.go', 'internal/ins', 'internal/util/hash', 'pkg/fbdl/compile.go'],
  mech=[('concurrent parsing of packages and files', 'internal/prs'), ('ordered iteration of maps', 'internal/ins, internal/util/hash'), ('state of the process', 'pkg/fbdl/compile.go')],
  harn=[('Schedules', 'every order of the goroutines, and every order of 1 (thorough 2) iterations of maps, for a description of 3 packages; happens-before race detection on every access', ['end']),
        ('SchedulesBad', 'the same for descriptions with a fault in any of the packages', ['end', 'accepted']),
        ('Repeat', 'every sequence of 2 (thorough 3) compilations out of valid and faulty descriptions before the one observed', ['end'])],
  assume=['goroutines run to their next blocking operation; finer interleavings are covered by the absence of data races'],
  outside='Which one of several errors is reported first.',
  level_note='All goroutine orders and all bounded deviations of map orders; data races decided by vector clocks on every access.')

P(id='P27', title='Bit strings and ranges convert exactly at any length',
  statement='Converting a bit string to binary or extending it to a greater width keeps the value of every bit; reading it as a number gives its exact value or none at all. The bit width of a range is the least that represents all its values.',
  over='inputs', quant='All bit strings of the bounds, with any digits and meta values, and all ranges with bounds up to 2^62.',
  why='The helpers are public and take strings of any length and any numbers; tests use a few short ones.',
  files=['pkg/fbdl/types/bit_str.go', 'pkg/fbdl/types/range.go'],
  mech=[('bit strings', 'pkg/fbdl/types/bit_str.go'), ('ranges', 'pkg/fbdl/types/range.go')],
  harn=[('BitExtend', 'strings of 1 to 3 (thorough 9) digits of each radix, meta values included, extended to any width up to 10 more', ['end']),
        ('BitValue', 'strings of 1, 2, 3, 16 or 17 digits (thorough also 4, 8, 21, 22, 63, 64, 65) of each radix; longer ones without meta values', ['end']),
        ('RangeBits', 'ranges and shifted ranges with any bounds up to 2^62, sets of up to 3 ranges', ['end'])],
  outside='Strings which are not bit strings.',
  level_note='Solver verdict over all digits and bounds.')

P(id='P28', title='The identifier tells different register maps apart',
  statement='Two descriptions that differ in the name, kind, size, width, count, value or order of any functionality or in a constant have different identifiers, but for collisions of the checksum. The identifier depends on nothing else: not on layout, types, packages, or whether a default is written out.',
  over='programs', quant='All pairs of descriptions differing at any one of 52 places by any two values, pairs of 17 functionalities of different kinds and any of 8 ways to write a description.',
  why='A property missing from the hash is visible only in pairs of descriptions differing in it alone; tests compile single descriptions.',
  files=['internal/util/hash', 'internal/reg/reg.go', 'pkg/fbdl/fn', 'pkg/fbdl/pkg'],
  mech=[('hashes of functionalities', 'internal/util/hash, pkg/fbdl/fn'), ('identifier register', 'internal/reg/reg.go')],
  harn=[('IdDiffers', '52 places of a description (numbers up to 99999, names and strings of two letters, alternatives), any two values; thorough also followed by other members', ['end']),
        ('IdSame', '8 forms of one description with symbolic widths, counts and values, with and without the timestamp', ['end']),
        ('IdKinds', 'all pairs of 17 functionalities of like properties, any width', ['end'])],
  assume=['the checksum is modelled as an injective function of the bytes hashed'],
  outside='Collisions of the 32-bit checksum; reset and read values, ranges, groups, alignment and names of constants, which the hash does not include.',
  level_note='All pairs within the bounds; values symbolic.')

P(id='P29', title='Buffer and access helpers for generators agree with the register map',
  statement='The start and end addresses and buffer sizes that the library gives for parameters and returns cover exactly their registers. A group is reported read-only exactly when writing to none of its members has an effect.',
  over='inputs', quant='All procedures and streams of the bounds with all widths and counts, at any address.',
  why='The helpers combine accesses of the first and the last parameter; the tests hardly call them.',
  files=['pkg/fbdl/fn', 'pkg/fbdl/types/access.go'],
  mech=[('buffers and addresses of procedures and streams', 'pkg/fbdl/fn'), ('accesses', 'pkg/fbdl/types/access.go')],
  harn=[('Buffers', 'procedures and streams in a block with up to 2 parameters and 2 returns (quick: 1 return of a procedure), singles and arrays, widths symbolic; bus 32 (thorough 8, 16, 32, 64)', ['end']),
        ('ReadOnly', 'groups of up to 3 members of any of 7 kinds with any properties', ['end'])],
  outside='Code generators themselves, which are separate projects.',
  level_note='Solver verdict over all widths and counts within the bounds.')

P(id='P30', title='The program prints exactly the compiled bus; every option has its effect',
  statement='On success the program prints the compiled bus, all of it and nothing else, as JSON on the standard output, writes a file (with the values of the constants) only on request, and is silent otherwise; on any failure it prints nothing on the standard output, says why on the standard error stream, writes no file and exits with a failure code. Options and their parameters may come in any order and number before the name of the file, and each does exactly what is documented and nothing else. Unknown options, missing parameters and missing or superfluous files are reported and never crash.',
  over='configurations', quant='All sequences of up to the bound of options and words, with arbitrary characters; all values of the widths, counts and constants of the descriptions compiled.',
  why='There are thousands of combinations of options; the tests have none and never run the program itself with options.',
  files=['cmd/fbdl', 'internal/args', 'pkg/fbdl/fn', 'pkg/fbdl/types'],
  mech=[('command line', 'internal/args'), ('the program', 'cmd/fbdl/main.go')],
  harn=[('CommandLine', 'up to 3 (thorough 5) arguments of 7 kinds in any order and an optional file; 2 arbitrary characters in every word', ['end', 'accepted']),
        ('Program', '4 descriptions with two main busses each, up to 3 options in any order; widths 8-31, counts and constants 1-9', ['end', 'default name']),
        ('ProgramOutput', 'every attribute of every kind of element, integers -40..40, booleans, strings of 2 letters: different values are printed differently'),
        ('ProgramFails', '12 kinds of failure, with and without -debug and -c')],
  assume=['encoding/json encodes different values differently (its text is compared up to that); package log and the standard streams behave as modelled, which is compared with runs of the real program on sampled paths'],
  outside='-help and -version, which print and exit; the undocumented -r; the texts of messages.',
  level_note='Solver verdict over all arguments within the bounds; violations are replayed by running the real program.')

P(id='P31', title='Every package is found once wherever it lies, and nothing else is one',
  statement='A directory whose name starts with fbd- and which holds files with names ending in .fbd is a package, wherever it lies below the working directory or the directories of FBDPATH, also when it is reached through symbolic links, several times or in a cycle. It is found once, with exactly those files; other directories and files, missing directories and broken links are ignored.',
  over='configurations', quant='All combinations of the places, search paths, links and sets of files of the bounds, with all values of the constants.',
  why='A directory lost, searched twice or searched forever needs a particular combination of nesting, links and search paths; the tests have flat directories.',
  files=['internal/prs/pre.go', 'internal/prs/prs.go', 'internal/util/directory.go'],
  mech=[('package discovery', 'internal/prs/pre.go: DiscoverPackages, findPkgsInDir'), ('files of a package', 'internal/prs/prs.go: parsePackage')],
  harn=[('Discover', '9 places of a package, 9 values of FBDPATH, 10 arrangements of symbolic links, 4 imports; constants symbolic'),
        ('DiscoverNames', '19 names of a directory at three places with 7 names of its file, alone or beside another file'),
        ('DiscoverFiles', 'all subsets of 11 files and links in the directory of a package; constants symbolic')],
  assume=['the file system behaves as the virtual one of harness/v, which is compared with the real one on sampled paths'],
  outside='Unreadable directories, FBDPATH naming a file, several packages of one name, the package named main.',
  level_note='All combinations within the bounds; values symbolic.')
