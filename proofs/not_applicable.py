# reasons for the properties without a check
NA.update({'A01': 'needs boost::filesystem::path and std::vector/std::string containers of unboundedly many elements, for which the verifier has no contracts; unrolling would only decide a handful of command lines',
 'H02': 'works through unique_ptr-owned streams, std::map registries and operating system files, for which the verifier has no contracts',
 'I01': 'packing leaf pages is bit packing with data-dependent widths over two nested loops; no invariant within reach of the verifier was found',
 'I02': 'the walk is recursive through pages of the file with data-dependent packing; no contract with a decreasing measure within reach was found',
 'P01': 'the tree of parsed values owns unboundedly many nodes linked by pointers; the verifier has no ownership (separation) predicates to state it',
 'Q01': 'works through unique_ptr streams, std::map and files of the operating system, for which the verifier has no contracts',
 'V03': 'the resizing code violates the property in several ways whose repair is not small (listed in DESIGN.md); a contract naming them all would only restate the defects',
 'W01': 'a statement about every function of the library together with the operating system refusing writes; no single function contract expresses it'})
