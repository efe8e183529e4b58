"""Which contract files decide which property."""
LIBS = []
TRUSTED = [
    'clang 18 front end (C++ -> LLVM IR at -O0, then opt sroa,loop-simplify); the library is compiled in its header-only configuration',
    '/verif/engine (VC generator: LLVM IR semantics, memory model, loop rule)',
    'z3 (python z3-solver), cvc5 1.1.2',
]
PROPS = {
    'C01': dict(src=['examiners.cpp']),
    'C02': dict(src=['decode.cpp']),
    'C03': dict(src=['decode.cpp']),
    'C04': dict(src=['decode.cpp'], hopts={'back': dict(back=True)}, weight={'walk_back_utf8': 9, 'jump_back_utf8': 8, 'walk_back_utf16': 7, 'jump_utf8': 6}),
    'C05': dict(src=['encode.cpp']),
    'C06': dict(src=['transcode.cpp'], weight={'utf8_to_utf8': 9, 'utf8_to_utf16': 8, 'utf16_to_utf8': 8, 'utf16_to_utf16': 7, 'utf32_to_utf8': 6, 'wide_to_utf8': 6, 'wide_to_utf16': 5, 'utf32_to_utf16': 5}, hopts={'to_utf8': dict(targets=(1,)), 'to_utf16': dict(targets=(2,)), 'to_utf32|to_wide': dict(targets=(4,)), 'to_char': dict(targets=(0,))}),
    'C07': dict(src=['validate.cpp']),
    'C08': dict(src=['validate.cpp'], hopts={'ends': dict(back=True)}, weight={'ends_utf8_utf32_sound': 9, 'ends_utf32_utf8_sound': 9, 'ends_utf8_utf32_complete': 8, 'ends_utf32_utf8_complete': 8, 'starts_utf32_utf8_sound': 7, 'ends_utf16_utf32_sound': 5, 'ends_wide_utf16_sound': 5, 'starts_utf8_utf32_sound': 5}),
    'C28': dict(src=['numbers.cpp'], opts=dict(unroll=70, unroll_paths=400)),
    'C09': dict(src=['numbers.cpp']),
    'C10': dict(src=['numbers.cpp'], opts=dict(abs_mul=True, merge_ints=True, merge_rets=True, unroll=1), limit=380),
    'C11': dict(src=['bools.cpp'], hopts={'utf8': dict(targets=(1,)), 'utf16': dict(targets=(2,)), 'utf32': dict(targets=(4,))}),
    'C13': dict(src=['numbers.cpp']),
    'C17': dict(src=['resources.cpp'], weight={'sequence_buffered': 9}),
    'C18': dict(src=['resources.cpp']),
    'C26': dict(src=['resources.cpp']),
    'C19': dict(src=['containers.cpp', 'files.cpp'], opts=dict(merge_ints=True), hopts={'file': dict(progress=True)}),
    'C20': dict(src=['containers.cpp'], opts=dict(merge_ints=True)),
    'C21': dict(src=['files.cpp'], opts=dict(merge_ints=True, progress=True)),
    'C25': dict(src=['files.cpp'], opts=dict(merge_ints=True, progress=True)),
    'C27': dict(src=['files.cpp'], opts=dict(merge_ints=True, progress=True)),
    'C15': dict(src=['streams.cpp']),
    'C16': dict(src=['streams.cpp']),
    'C22': dict(src=['streams.cpp'], hopts={'to_utf8': dict(targets=(1,)), 'to_utf16': dict(targets=(2,)), 'to_utf32': dict(targets=(4,))}),
    'C23': dict(src=['streams.cpp'], hopts={'to_utf8': dict(targets=(1,)), 'to_utf16': dict(targets=(2,)), 'to_utf32': dict(targets=(4,)),
                                           'word_to_utf32': dict(targets=(4,), shift=True)}, weight={'line_utf8_to_utf32': 9, 'utf8_to_utf8': 8, 'utf8_to_utf16': 7}),
    'C24': dict(src=['streams.cpp']),
    'C14': dict(src=['validate.cpp']),
}


def specs():
    import loopspecs
    return loopspecs.SPECS
