CLAIMED.update({
    'C03': ('generated directory trees (structured generator), reference model of live entries as oracle',
            'exploration', 'Multiset of name, type, path and metadata of every listed entry compared with the model.'),
    'C04': ('generated directories and hash trees, reference model lookups with positive and negative probes',
            'exploration', 'Every live name and as many absent ones looked up; independent directory-hash implementation.'),
    'C05': ('generated trees with symlink chains and generated paths, differential against a reference resolver',
            'exploration', 'All nine path operations on each path compared with an independent resolver.'),
    'C06': ('generated images over the geometry space, reference model of inode fields as oracle',
            'exploration', 'Metadata through every route, label and UUID compared with the model.'),
    'C07': ('generated misuse matrix and malformed paths with injected reader errors, documented error table as oracle',
            'exploration', 'Object kind x operation, error kind and std::io conversion compared with the documentation.'),
    'C16': ('generated feature words and hash versions on generated images, documented support table as oracle',
            'exploration', 'Verdict at load compared with the table; full model comparison when it must load.'),
    'C17': ('generated byte strings, algebraic model of paths on bytes as oracle',
            'exploration', 'Pure functions; hundreds of thousands of cases per run.'),
    'C18': ('generated byte strings, model of names, labels, UUIDs and text forms as oracle',
            'exploration', 'Pure functions; hundreds of thousands of cases per run.'),
    'C19': ('generated superblock mutations on generated images, validity rules and metamorphic equality as oracle',
            'exploration', 'Illegal values must be refused; descriptive fields must not change anything read.'),
    'C13': ('generated operation histories with generated reader-fault schedules, differential against fault-free runs',
            'exploration', 'Every injected failure must come back as that very error, every retry must equal the fault-free result.'),
    'C14': ('stateful generation of interleavings over clones, open files, iterators and dropped handles, differential against isolated runs',
            'exploration', 'Each step compared with the same operation alone on a fresh handle, and with the content model.'),
    'C15': ('generated images with every read logged and range-checked; metamorphic variation of all unused bytes',
            'exploration', 'Ranges of all reads checked; results must not change when unused contents change.'),
    'C20': ('generated images through every reader and access route, differential between routes',
            'exploration', 'Vec, std File, load_from_path and two custom readers; whole, incremental, std, string, canonical, listed.'),
    'C08': ('stateful generation of transaction histories and circular logs, differential against the same filesystem with the history applied',
            'exploration', 'Replay through the library compared with the applied state on a full tour and with the model; the generated logs replay identically under e2fsprogs.'),
    'C09': ('generated crash points, missing blocks, stale tails and damaged log blocks over generated histories, prefix-consistency oracle',
            'exploration', 'Each cut or damaged log must show exactly the state after the last complete transaction, or (damage only) an error.'),
    'C10': ('generated alterations of every checksummed structure on generated images, clean and with a log to replay; metamorphic oracle (error or unchanged result)',
            'exploration', 'Every alteration of checksummed bytes must leave each result as it was or turn it into an error.'),
    'C11': ('structured fuzzing: generated images with resealed alterations of every structure, noise and truncation; no-panic oracle over every public operation and formatting',
            'exploration', 'No panic, abort, stack overflow or failed allocation, with overflow checks on.'),
    'C12': ('structured fuzzing with adversarial self-referential and huge-count structures; deterministic work (control-flow edges) and memory meters as oracle',
            'exploration', 'Every operation within a flat limit of work and memory for images of a few MiB; iterators stay ended; seeks bounded by file length.'),
    'C21': ('generated directory trees and tool invocations (mke2fs, debugfs, e2fsck, tune2fs, resize2fs), differential against the drawn tree',
            'exploration', 'An implementation of the format that is independent of the generator of the other checks; everything shown is compared.'),
})
