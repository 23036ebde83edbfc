import re
"""Which harness units decide which property, and with which verifier options."""

COMMON_ASSUMPTIONS = [
    "pointer arithmetic does not wrap (objects lie apart; LLVM inbounds semantics); objects are smaller than 2^36 bytes",
    "signed overflow is treated as two's complement wrap, not as an error",
    "allocation succeeds (std::bad_alloc is not explored) except where a harness says otherwise",
    "objects freed under a condition are treated as live afterwards (no use-after-free claim there)",
    "single-threaded execution",
    "no loop runs more than 2^56 iterations",
]

PROPS = {}

# text streams (error messages only): see harness/streams.h
STREAMS = [(r'std::(__cxx11::)?basic_o?stringstream<.*>::(~)?basic_o?stringstream\(.*\)', 'contract_stream_nothing'),
           (r'.*std::(basic_ostream<.*>::)?operator<<(\[abi:.*\])?\s?(<.*>)?\(.*\)', 'contract_stream_out'),
           (r'std::(__cxx11::)?basic_o?stringstream<.*>::str\(\) const', 'contract_stream_str'),
           (r'std::(\w+_error|out_of_range|invalid_argument)::(~)?(\w+_error|out_of_range|invalid_argument)\(.*\)', 'contract_stream_nothing')]
STREAMS_TRUST = "the text of error messages is not modelled (std::ostringstream replaced by an empty contract)"

PROPS['C01'] = dict(units=[dict(src='c01.cpp')])
SPELL = [(r'.*boost::lexical_cast<.*basic_string.*>\(unsigned int const&\)', 'contract_spelling'), (r'.*std::operator\+<char.*>\(char const\*, .*&&\)', 'contract_concat')]
PROPS['C02'] = dict(units=[dict(src='c02.cpp', opts=dict(contracts=SPELL),
    entry_opts=[(r'check_(oce|xor)_(un)?bytes', dict(induct=[(r'.*', ['inv_at', 'inv_idx32', 'inv_idx64'])]))]),
    dict(src='c02n.cpp', native_only=True, lib=True)])
DQ = r'std::deque<std::pair<int, unsigned char const\*>.*>::'
PROPS['C03'] = dict(units=[dict(src='c03.cpp', opts=dict(contracts=[
    (DQ + r'size\(\) const', 'contract_size'), (DQ + r'empty\(\) const', 'contract_empty'),
    (DQ + r'push_back\(', 'contract_push'), (r'.*' + DQ + r'emplace_back<', 'contract_emplace'),
    (DQ + r'operator\[\]\(', 'contract_at'), (DQ + r'at\(', 'contract_at'), (DQ + r'front\(\)', 'contract_front'), (DQ + r'back\(\)', 'contract_back'),
    (DQ + r'pop_front\(\)', 'contract_pop'), (DQ + r'clear\(\)', 'contract_clear')]))],
    trusted=["std::deque behaves as a sequence (its member functions are replaced by contracts over a ghost sequence)"])
PROPS['C05'] = dict(units=[dict(src='c05.cpp',
    entry_opts=[(r'check_visit', dict(induct=[(r'.*', ['inv_rest', 'inv_last', 'inv_seen'])])), (r'check_ctor_ranges', dict(contracts=[(r'ByteSet::set\(unsigned long, unsigned long, bool\)', 'contract_set_range')]))])])
PROPS['C11'] = dict(units=[dict(src='c11.cpp', bison=True), dict(src='c11n.cpp', native_only=True, lib=True)])
PROPS['C06'] = dict(units=[dict(src='c06.cpp')])
SETC = [(r'ByteSet::set\(unsigned long, unsigned long, bool\)', 'contract_set_range')] + STREAMS
PROPS['C07'] = dict(units=[dict(src='c07.cpp', opts=dict(contracts=SETC),
    entry_opts=[(r'check_(smallest|factory)', dict(contracts=SETC + [(r'TransitionFactory::get\(Transition\*\)', 'contract_get')], induct=[('.*', ['inv_small'])]))]),
    dict(src='c07n.cpp', native_only=True, lib=True)],
    trusted=[STREAMS_TRUST])
# ---- the engine: sparse sets by contract (proved by C06), thread lists with room
SETS = [(r'SparseSet::find\(unsigned int\) const', 'contract_find'), (r'SparseSet::insert\(unsigned int\)', 'contract_insert'),
        (r'SparseSet::clear\(\)', 'contract_clear'), (r'SparseSet::size\(\) const', 'contract_size'),
        (r'.*std::vector<Thread.*>::_M_realloc_(insert|append)', 'contract_grow')]
VM_TRUST = ["SparseSet by contract: a set of labels (proved by C06)", "std::vector<Thread> grows correctly (lists here have room for what is added)"]
SEQ = [(r'.*Vm::_executeEpSequence<', 'contract_seq')]
PROPS['C09'] = dict(units=[dict(src='c09.cpp', opts=dict(contracts=SETS + SEQ),
    entry_opts=[(r'check_finish_\d+', dict(induct=[('.*', ['%s_%s' % (a, b) for a in ('all32_kill', 'all32_start', 'inv_in') for b in 'pncr'])]))])], trusted=VM_TRUST)
STEP = dict(src='vm_step.cpp', opts=dict(contracts=SETS + SEQ),
    entry_opts=[(r'check_finish_\d+', dict(induct=[('.*', ['%s_%s' % (a, b) for a in ('all32_kill', 'all32_start', 'inv_in') for b in 'pncr'])]))])
EPS = [(r'.*Vm::_executeEpsilon<', 'contract_eps')]
def thr(f): return [(r'Vm::_executeThread\(', f)]
FRAME = dict(src='vm_frame.cpp', no_native=True, opts=dict(contracts=SETS), entry_opts=[
    (r'check_sequence_\d+', dict(contracts=SETS + EPS, induct=[('.*', ['all32_others'])])),
    (r'check_thread', dict(contracts=SETS + [(r'Vm::_execute\(', 'contract_exec'), (r'.*Vm::_executeEpSequence<', 'contract_seq1')])),
    (r'check_frame_.*', dict(contracts=SETS + thr('contract_old') + [(r'Vm::_executeNewThreads\(', 'contract_news')], induct=[('.*', ['inv_old'])])),
    (r'check_new', dict(contracts=SETS + thr('contract_new1'), induct=[('.*', ['all32_making', 'all32_running', 'inv_made', 'inv_all_made', 'inv_ran', 'inv_none_ran'])]))])
PROPS['C09'] = dict(units=[STEP, FRAME], trusted=VM_TRUST)
CL, LM = r'Vm::_cleanup\(\)', r'Vm::_startOfLeftmostLiveThread\('
SEARCH = dict(src='vm_search.cpp', no_native=True, opts=dict(contracts=SETS), entry_opts=[
    (r'check_search', dict(contracts=SETS + [(r'Vm::_executeFrame\(std::bitset', 'contract_frame_f'), (r'Vm::_executeFrame\(', 'contract_frame_p'), (CL, 'contract_clean'), (LM, 'contract_leftmost')],
        induct=[('.*', ['inv_done', 'inv_between'])])),
    (r'check_leftmost', dict(induct=[('.*', ['inv_upto_p', 'inv_upto_n'])])),
    (r'check_resolve', dict(contracts=SETS + thr('contract_run') + [(CL, 'contract_clean_r'), (LM, 'contract_leftmost_r')],
        induct=[('.*', ['all32_pc', 'inv_done', 'inv_list', 'inv_run', 'inv_norun', 'inv_noany', 'inv_last', 'inv_last8', 'inv_lastb', 'inv_any8', 'inv_anyb'])]))])
CO = [(r'Vm::closeOut\(', 'contract_close'), (r'Vm::reset\(', 'contract_reset')]
SEARCH['entry_opts'].append((r'check_starts', dict(contracts=SETS + thr('contract_run_s') + [(CL, 'contract_clean_s')] + CO,
        induct=[('.*', ['all32_making', 'all32_torun', 'inv_made', 'inv_slist', 'inv_started', 'inv_run', 'inv_norun', 'inv_between'])])))
PROPS['C10'] = dict(units=[FRAME, SEARCH], trusted=VM_TRUST)

INP = [('.*', ['inv_in_' + b for b in 'pncr'])]
HITS = dict(src='vm_hits.cpp', no_native=True, opts=dict(contracts=SETS + SEQ), entry_opts=[
    (r'check_finish_\d+', dict(induct=INP)),
    (r'check_sequence_\d+', dict(contracts=SETS + EPS, induct=[('.*', ['inv_covered'])])),
    (r'check_thread', dict(contracts=SETS + [(r'Vm::_execute\(', 'contract_exec'), (r'.*Vm::_executeEpSequence<', 'contract_seq_b')])),
    (r'check_frame_.*', dict(contracts=SETS + thr('contract_thread') + [(r'Vm::_executeNewThreads\(', 'contract_news')], induct=[('.*', ['inv_covered'])])),
    (r'check_new', dict(contracts=SETS + thr('contract_thread'), induct=[('.*', ['inv_covered', 'inv_room'])])),
    (r'check_search', dict(contracts=SETS + [(r'Vm::_executeFrame\(std::bitset', 'contract_frame_f'), (r'Vm::_executeFrame\(', 'contract_frame_p'), (CL, 'contract_clean'), (LM, 'contract_leftmost')],
        induct=[('.*', ['inv_covered'])])),
    (r'check_close', dict(induct=[('.*', ['inv_reported', 'inv_settled_p', 'inv_settled_n', 'inv_settled_r', 'inv_inside_p'])]))])
HITS['entry_opts'] += [(r'check_resolve', dict(contracts=SETS + thr('contract_run') + [(CL, 'contract_clean_r'), (LM, 'contract_leftmost')], induct=[('.*', ['inv_covered', 'inv_list', 'inv_in_list', 'all32_pc'])])),
    (r'check_starts', dict(contracts=SETS + thr('contract_run') + [(CL, 'contract_clean_r')] + CO, induct=[('.*', ['inv_covered', 'inv_list', 'inv_in_list', 'inv_room'])]))]
PROPS['C08'] = dict(units=[HITS], trusted=VM_TRUST)

def vmn(e): return dict(src='vmn.cpp', native_only=True, lib=True, entries=e, native_secs={e: 8})
for _p, _e in (('C08', 'native_c08'), ('C09', 'native_c09'), ('C10', 'native_c10')):
    PROPS[_p]['units'] = PROPS[_p]['units'] + [vmn(_e)]

LB = [(r'.*std::lower_bound<.*unsigned int>\(', 'contract_lower'), (r'.*std::lower_bound<.*unsigned long>\(', 'contract_lower_pos'), (r'.*std::upper_bound<.*unsigned int>\(', 'contract_upper'),
      (r'.*std::vector<unsigned int.*>::_M_realloc_(insert|append)', 'contract_grow')]
VU = r'std::vector<unsigned int, std::allocator<unsigned int> >::'
LB += [(VU + r'erase\(__gnu.*>, __gnu', 'contract_erase'), (VU + r'erase\(__gnu', 'contract_erase1'), (VU + r'insert\(__gnu.*initializer_list', 'contract_vinsert_list'),
       (VU + r'insert\(__gnu.*, unsigned int( const)?&', 'contract_vinsert'), (VU + r'push_back\(', 'contract_push')]
RS = r'RangeSet<unsigned int, 1114112u>::'
LV2 = [(RS + r'insert\(unsigned int const&, unsigned int const&\)', 'contract_insert'), (RS + r'flip\(\)', 'contract_flip'), (RS + r'test\(unsigned long\) const', 'contract_test'),
       (VU + r'vector\(std::vector', 'contract_copy'), (VU + r'operator=\(std::vector', 'contract_assign'), (VU + r'~vector\(', 'contract_gone'), (VU + r'clear\(', 'contract_vclear')]
OR2 = [(RS + r'operator\|=\(', 'contract_or')]
PROPS['C04'] = dict(units=[dict(src='c04.cpp', opts=dict(contracts=LB, prune=3), entry_opts=[
    (r'check_find_.*', dict(contracts=[], induct=[('.*', ['inv_around'])])),
    (r'check_count', dict(induct=[('.*', ['inv_count_p', 'inv_count_n'])])),
    (r'check_equal', dict(contracts=[(r'.*std::operator==<unsigned int', 'contract_vec_equal')])),
    (r'check_(algebra|algebra_here|points|made|union_self)', dict(contracts=LV2 + OR2)),
    (r'check_list_.*', dict(contracts=LV2 + [(VU + r'reserve\(', 'contract_reserve')], induct=[('.*', ['inv_listed_p', 'inv_listed_n'])])),
    (r'check_from_bits', dict(contracts=LV2 + [(VU + r'insert\(__gnu.*initializer_list', 'contract_run'), (VU + r'end\(\)', 'contract_end')], induct=[('.*', ['inv_bits_out', 'inv_bits_in', 'inv_bits_at'])])),
    (r'check_union', dict(contracts=LV2, induct=[('.*', ['inv_ored_p', 'inv_ored_n', 'inv_ored_h'])]))])],
    trusted=["std::vector<uint32_t>: inserting, removing and comparing elements by contract, there is room for what is added"])

FIND = [(r'.*std::find<char const\*, char>', 'contract_find'), (r'.*std::find<std::reverse_iterator<char const\*>, char>', 'contract_rfind')]
QUIET = ['inv_quiet', 'inv_trip', 'inv_trip_r']
PROPS['C13'] = dict(units=[dict(src='c13.cpp', opts=dict(contracts=FIND), entry_opts=[
    (r'check_window', dict(contracts=[(r'find_leading_context', 'contract_leading'), (r'find_trailing_context', 'contract_trailing')])),
    (r'check_r?find_.', dict(contracts=[], cand_timeout=90, induct=[('.*', QUIET)])),
    (r'check_leading', dict(induct=[('.*', ['inv_lead_d64', 'inv_lead_d32', 'inv_lead_u64'] + QUIET[:1])])),
    (r'check_trailing', dict(induct=[('.*', ['inv_trail_d64', 'inv_trail_d32', 'inv_trail_u64'] + QUIET[:1])]))]),
    dict(src='c13n.cpp', native_only=True, lib=True, native_secs={'native_blocks': 8})],
    trusted=[])

FAILS = [(r'^' + re.escape(f) + r'\(', 'contract_fails') for f in ('FSMThingy::FSMThingy', 'FSMThingy::addPattern', 'FSMThingy::finalizeGraph', 'PatternMap::PatternMap', 'PatternMap::addPattern')]
DOES = [(f, 'contract_does') for f in (r'^FSMThingy::~FSMThingy\(', r'^PatternMap::~PatternMap\(', r'^PatternMap::clearPatterns\(', r'^NFA.*::~')]
PROPS['C16'] = dict(units=[dict(src='c16.cpp', no_native=True, opts=dict(faults=True, contracts=[
    (r'^parseAndReduce\(', 'contract_parse'), (r'^PatternMap::count\(', 'contract_count'), (r'^Compiler::createProgram\(', 'contract_made_program'),
    (r'^VmInterface::create\(', 'contract_made_vm'), (r'^PatternMap::unmarshall\(', 'contract_loaded_map'), (r'^Program::unmarshall\(', 'contract_loaded_program'),
    (r'::marshall\(', 'contract_saved')] + FAILS + DOES), entry_opts=[
    (r'check_windows', dict(contracts=[(r'readWindow\(', 'contract_window'), (r'hitContext\(', 'contract_context')] + DOES)),
    (r'check_list', dict(contracts=[(r'addPatternHelper<', 'contract_line'), (r'^makeError\(', 'contract_error'), (r'lexical_cast<bool', 'contract_option'),
        (r'^boost::.*iterator_facade_base<.*::operator\*\(', 'contract_token'), (r'^boost::.*enable_if_interoperable<', 'contract_same'),
        (r'^std::vector<std::__cxx11::basic_string.*::vector<char const\*\*', 'contract_names'), (r'^std::__cxx11::basic_string.*::basic_string\(std::__cxx11::basic_string.*const&\)$', 'contract_copied'),
        (r'^boost::.*(::~\w+\(\))', 'contract_does'), (r'^boost::', 'contract_fails')], induct=[('.*', ['inv_tail', 'inv_ok_list'])])),
    (r'check_add_list', dict(contracts=[(r'addPatternList\(', 'contract_list')])),
    (r'check_helper', dict(contracts=[(r'^lg_parse_pattern$', 'contract_parse_1'), (r'^lg_add_pattern$', 'contract_add_1')],
                           induct=[('.*', ['inv_tail', 'inv_ok', 'inv_ok8'])])),
    (r'check_ids', dict(contracts=[(r'find_trans_id\(', 'contract_trans')]))]),
    dict(src='c16p.cpp', bison=True, opts=dict(contracts=STREAMS + [(r'std::stack<unsigned char.*>::top\(\)', 'contract_top'), (r'^set\w+Class\(', 'contract_set'),
        (r'^RangeSet<.*>::(reset|flip)\(', 'contract_set'), (r'^propertyGetter\(', 'contract_property'), (r'.*std::find<int const\*, char>', 'contract_find_brace'), (r'.*std::copy<int const\*, std::ostream_iterator', 'contract_show'),
        (r'^std::__cxx11::basic_string<char.*>::operator\+=\(char\)', 'contract_append'), (r'^std::__cxx11::basic_string<char.*>::(~?)basic_string\(', 'contract_set')]), entry_opts=[(r'check_place', dict(induct=[('.*', ['inv_name'])]))]),
    dict(src='c16n.cpp', native_only=True, lib=True, native_secs={'native_faults': 12})], trusted=[])

BUFFER = [(r'^std::vector<char, .*>::vector\(unsigned long', 'contract_buffer')]
TSIZE = [(r'^PatternMap::bufSize\(', 'contract_size')]
PROPS['C12'] = dict(units=[dict(src='c12.cpp', no_native=True, opts=dict(contracts=BUFFER + [(r'^Program::Program\(unsigned long\)$', 'contract_new_program')]), entry_opts=[
    (r'check_read$', dict(peel=4, induct=[('marshall', ['all8_head', 'inv_bytes', 'all8_read_p', 'all8_read_y', 'all8_read_b'])])),
    (r'check_write', dict(peel=4, induct=[('marshall', ['all1_written_p', 'all1_written_b', 'all1_written_y', 'inv_bits'])]))]),
    dict(src='c12m.cpp', no_native=True, opts=dict(contracts=BUFFER + TSIZE), entry_opts=[
    (r'check_read_table', dict(contracts=[(r'^PatternMap::usePattern', 'contract_use'), (r'^PatternMap::PatternMap\(unsigned', 'contract_new_table')], induct=[('.*', ['inv_next'])])),
    (r'check_offsets', dict(induct=[('.*', ['inv_after'])])),
    (r'check_table_size', dict(contracts=[], induct=[('.*', ['inv_record', 'inv_sum'])])),
    (r'check_write_.*', dict(cand_timeout=120, induct=[('marshall', ['inv_record', 'inv_at', 'inv_byte', 'inv_kept'])]))]),
    dict(src='c12a.cpp', no_native=True, opts=dict(contracts=[(r'^PatternMap::bufSize\(', 'contract_table_size'), (r'^Program::bufSize\(', 'contract_code_size'),
        (r'^PatternMap::marshall\(', 'contract_save_table'), (r'^Program::marshall\(', 'contract_save_code'), (r'^PatternMap::unmarshall\(', 'contract_load_table'),
        (r'^Program::unmarshall\(', 'contract_load_code'), (r'^PatternMap::~PatternMap\(', 'contract_does'), (r'^Program::~Program\(', 'contract_does')])),
    dict(src='c12n.cpp', native_only=True, lib=True, native_secs={'native_saved': 6})], trusted=[])

VALS = r'^std::vector<std::pair<int, unsigned char const\*>, .*>::'
PROPS['C15'] = dict(units=[dict(src='c15.cpp', no_native=True, entry_opts=[(r'check_decode.*', dict(templates=False, contracts=[
    (VALS + r'vector\(\)', 'contract_values'), (VALS + r'~vector\(', 'contract_gone'), (VALS + r'clear\(', 'contract_clear'), (VALS + r'push_back\(std::pair<int, unsigned char const\*> const&', 'contract_push'),
    (r'.*' + VALS[1:] + r'emplace<int', 'contract_pad'), (r'void ' + VALS[1:] + r'assign<', 'contract_assign'), (r'.*std::find_if<std::reverse_iterator', 'contract_find')],
    induct=[('count_if', ['inv_count']), ('decode', ['inv_decoder', 'inv_before', 'inv_open', 'inv_lead', 'inv_room', 'inv_l_phi', 'inv_chosen', 'inv_run', 'inv_pad_phi', 'inv_hit', 'inv_value_stack', 'inv_got_stack', 'inv_left_phi', 'inv_trail'])])),
    (r'check_window', dict(contracts=[(r'^\(anonymous namespace\)::decode\(', 'contract_decode'), (r'^DecoderFactory::get\(', 'contract_decoder'), (r'^std::__cxx11::basic_string.*::basic_string<', 'contract_name'),
        (r'^std::__cxx11::basic_string.*::~', 'contract_gone'), (VALS + r'~vector\(', 'contract_gone')], induct=[('readWindow', ['all4_chars', 'all8_offs', 'inv_both'])])),
    (r'check_text', dict(contracts=[(r'.*cp_to_utf8<', 'contract_utf8'), (r'^std::vector<char, .*>::push_back\(', 'contract_byte')], induct=[('cp_range', ['inv_chars_phi']), ('copy', ['inv_byte_phi', 'inv_bytes_phi', 'inv_encoded'])])),
    (r'check_context', dict(contracts=[(r'^\(anonymous namespace\)::readWindow\(', 'contract_window'), (r'^\(anonymous namespace\)::cp_range_to_utf8\(', 'contract_text')])),
    (r'check_entry.*', dict(contracts=[(r'^\(anonymous namespace\)::readWindow\(', 'contract_window'), (r'^\(anonymous namespace\)::hitContext\(', 'contract_hit_context')]))]),
    dict(src='c15n.cpp', native_only=True, lib=True, native_secs={'native_window': 6})], trusted=[])
