"""Which functions and lemmas decide which property.

direct : regular expressions over function keys (see the extractor's map) whose contracts state the property.
roots  : entry points; everything they reach through calls is the property's closure.
lemmas : lemma functions (module::name) that turn the contracts into the property statement.
safety : the property is about absence of panics/hangs: safety obligations of the whole closure are direct.
"""

READ_ROOTS = [r'^tag::Tag::read_from(_path)?$', r'^atom::read_tag_from$']
WRITE_ROOTS = [r'^tag::Tag::write_to(_path)?$', r'^atom::write_tag_to$']
DUMP_ROOTS = [r'^tag::Tag::dump_to(_path)?$', r'^atom::dump_tag_to$']

# modules of the generated crate
BASE = ['vp', 'vp::io', 'vp::fs']
HEADS = ['atom::head', 'hs', 'atom::ident']
READ = HEADS + ['ty', 'ds', 'ks', 'pl', 'il', 'fl', 'types', 'atom', 'atom::data', 'atom::ilst', 'atom::meta', 'atom::udta', 'atom::moov',
                'atom::ftyp', 'atom::hdlr', 'atom::mvhd', 'atom::trak', 'atom::mdia', 'atom::minf', 'atom::stbl', 'atom::stsd',
                'atom::mp4a', 'atom::stco', 'atom::co64', 'tag::readonly']
FIND = ['fd', 'atom::mdat']
SER = HEADS + ['ty', 'ds', 'sr', 'dp', 'fl', 'types', 'atom', 'atom::data', 'atom::ilst', 'atom::meta', 'atom::udta', 'atom::moov', 'atom::ftyp',
               'atom::hdlr']
TAG = ['tag', 'vs', 'tg', 'ty', 'ds', 'atom', 'atom::ident', 'atom::data']
DUMPED = ['ls', 'rt']
WRITE = sorted(set(READ + FIND + SER + ['wt']))
WRITTEN = sorted(set(WRITE + DUMPED + ['st', 'aj', 'sp', 'nt', 'tl', 'rs', 'wr', 'tag']))

MODULES = {
    'P01': WRITTEN, 'P02': sorted(set(READ + SER + DUMPED + ['tag'])), 'P03': WRITTEN, 'P04': WRITTEN, 'P05': WRITTEN, 'P06': READ + ['tag'], 'P07': sorted(set(WRITE + ['tag'])), 'P08': SER,
    'P09': ['ty', 'ds', 'types', 'atom::data'] + HEADS,
    'P10': TAG, 'P11': TAG + ['nm', 'types'], 'P12': TAG + ['nm', 'tp', 'tag::tuple'], 'P13': TAG + ['nm', 'gn', 'tag::genre'],
    'P14': ['types', 'ty'],
    'P15': READ + ['tag'], 'P16': HEADS + ['ty', 'ds', 'il', 'atom', 'atom::data', 'atom::ilst'],
    'P17': HEADS, 'P18': ['atom::ident'],
    'P19': sorted(set(TAG + ['nm', 'gn', 'tp', 'pf', 'types', 'tag::genre', 'tag::readonly', 'tag::tuple', 'atom::ident', 'atom::data'])),
}
# functions that only print: they belong to P19 and to no other property
PRINTING = r'::format_\w+(::\w+)?$| as (Display|Debug)>::'
# modules whose functions are not under contract yet: the verifier is not run on them
NOT_YET = []

PROPS = {
    'P01': dict(direct=[r'^tag::Tag::(read_from|write_to)(_path)?$', r'^atom::(read_tag_from|write_tag_to)$'],
                roots=READ_ROOTS + WRITE_ROOTS),
    'P02': dict(direct=[r'^tag::Tag::(read_from|dump_to)(_path)?$', r'^atom::(read_tag_from|dump_tag_to)$'],
                roots=READ_ROOTS + DUMP_ROOTS),
    'P03': dict(direct=[r'^tag::Tag::write_to(_path)?$', r'^atom::write_tag_to$'], roots=WRITE_ROOTS),
    'P04': dict(direct=[r'^tag::Tag::write_to(_path)?$', r'^atom::write_tag_to$', r'^atom::(stco|co64|stbl|minf|mdia|trak)::'], roots=WRITE_ROOTS),
    'P05': dict(direct=[r'^tag::Tag::write_to(_path)?$', r'^atom::write_tag_to$'], roots=WRITE_ROOTS),
    'P06': dict(direct=[], roots=READ_ROOTS, safety=True),
    'P07': dict(direct=[r'^atom::write_tag_to$', r'^tag::Tag::write_to(_path)?$'], roots=WRITE_ROOTS + DUMP_ROOTS, safety=True),
    'P08': dict(direct=[r' as (WriteAtom|LenOrZero)>::', r'^atom::(WriteAtom|LenOrZero)::',
                        r'^atom::AtomData::(len|write|is_empty|size)', r'^atom::data::Data::(len|write|is_empty)',
                        r'^atom::head::(write_head|Size::)', r'^atom::ftyp::'],
                roots=DUMP_ROOTS),
    'P09': dict(direct=[r'^atom::data::'], roots=[r'^atom::data::']),
    'P10': dict(direct=[r'^tag::Tag::((take_)?(bytes|strings|images|data)(_mut)?(_of|_mut_of)?|(remove|retain)_(bytes|strings|images|data)(_of)?|clear|(set|add)_(all_)?data|is_empty)$'],
                roots=[]),
    'P11': dict(direct=[r'^tag::Tag::'], roots=[]),
    'P12': dict(direct=[r'^tag::tuple::'], roots=[r'^tag::tuple::']),
    'P13': dict(direct=[r'^tag::genre::', r'^types::.*[gG]enre', r'^tag::Tag::.*custom_genre'], roots=[r'^tag::genre::']),
    'P14': dict(direct=[r'^types::'], roots=[r'^types::']),
    'P15': dict(direct=[r'^atom::(mvhd|mp4a|stsd)::', r'^tag::readonly::', r'^atom::read_tag_from$', r'^tag::Tag::read_from(_path)?$',
                        r'^types::.*(ChannelConfig|SampleRate)'], roots=READ_ROOTS),
    'P16': dict(direct=[r'^atom::ilst::', r'^atom::AtomData::parse$', r'^atom::data::Data::parse$',
                        r'^atom::ident::.*parse'], roots=[r'^atom::ilst::.*parse_atom']),
    'P17': dict(direct=[r'^atom::head::'], roots=[r'^atom::head::']),
    'P18': dict(direct=[r'^atom::ident::'], roots=[r'^atom::ident::']),
    'P19': dict(direct=[PRINTING], roots=[PRINTING]),
}

_PROVED = 'Every obligation of the functions under contract is discharged for all inputs; trusted: mirror contracts of std (listed in the evidence), 64-bit usize, rustc expansion.'
LEVELS = {p: 'proof' for p in PROPS}
NOTES = {p: _PROVED for p in PROPS}
