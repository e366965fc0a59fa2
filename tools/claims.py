# NOTE[id] = level note of a claimed property
NOTE['C16'] = 'The format constructors, String, ToYAML and UnmarshalRAML of all three format types are proved for every text and every YAML node.'
NOTE['C04'] = 'Every setter, clearer and getter of all 16 type declaration kinds is proved for an arbitrary state of the declaration and every argument, frame included (all other readable properties, and the identity of the collections).'
NOTE['C05'] = 'Every setter, clearer and getter of API documents, libraries, documentation entries, XML settings and all 14 example kinds is proved for an arbitrary state of the element and every argument, frame included.'
NOTE['C06'] = 'The constructors of all 34 element kinds and every public builder function are proved to give the literal default state; separateness is proved by changing every property and collection of one instance and proving the other unchanged.'
NOTE['C07'] = 'TypeSortingHat and PropertySortingHat are proved for every YAML tree: the kind, the text and all properties of the result, and exactly which forms are rejected; the two loops over the entries by inductive summaries. Texts that start with "!include " and non-scalar nodes tagged as text or include are assumed away.'
NOTE['C08'] = 'UnmarshalRAML of all 16 type declaration kinds and the functions that fill collections are proved for every node and every state: the effect of an arbitrary entry on an arbitrary state (fold over the mapping), the error exactly for a value of the wrong kind, and the frame. Elements parsed inside an entry are used through their own contracts; the list enum, and the default of an array, are assumed empty when their facet is met (whether a second such facet adds to the first or replaces it is left open).'
NOTE['C09'] = 'UnmarshalRAML of all 14 example kinds, XML settings and documentation entries is proved for every node and every state: the effect of an arbitrary entry on an arbitrary state (fold over the mapping), errors exactly for values of the wrong kind, frame included.'
NOTE['C10'] = 'UnmarshalYAML of API documents and libraries is proved for every node and every state: the effect of an arbitrary entry on an arbitrary state (fold over the mapping), errors exactly for values of the wrong kind, frame included. ParseApiDoc and ParseLibrary are proved for every source, the YAML decoder being an assumed contract. Documentation and a single media type are assumed unset when their entry is met.'
NOTE['C11'] = 'No panic is reachable in the parsing functions of any element kind, collection, type declaration or unknown key, for every well-formed tree and every state of the element. Parsing also ends: every loop has a bound that it leaves alone, and every nested call of a parsing function is on a proper part of the node, or on the node itself without a cycle among such calls (the tree is finite: an assumption the YAML decoder upholds).'
NOTE['C12'] = 'ToYAML and MarshalYAML of all 16 type declaration kinds are proved for every state of the declaration: the bare form exactly when nothing but the type is set, each facet under its own name with its current value, and no entry under an arbitrary other key, annotations and extra facets in their order; the declaration is unchanged. Conversion of the values inside (xyml.ToYamlNode) is an assumed contract. List facets are assumed unset or non-empty; names of facets are assumed not to be used as extra or annotation keys.'
NOTE['C13'] = 'ToYAML of all 14 example kinds, XML settings and documentation entries is proved for every state of the element: the bare value exactly when there is no metadata, otherwise each property under its own name with its current value and no entry under an arbitrary other key, annotations and extra entries in their order; the element is unchanged. Conversion of the values inside (xyml.ToYamlNode) is an assumed contract; property names are assumed not to be used as extra or annotation keys.'
NOTE['C14'] = 'MarshalYAML and WriteRAML of API documents and libraries are proved for every state of the document and every destination that may fail at any write: each section under its own name with its current content, no entry under an arbitrary other key, annotations, resources and extra entries in their order, the header line, and every failure returned. The YAML encoder (a dependency) is assumed to write the text of the node it is given.'
NOTE['C15'] = 'Writing followed by parsing is executed as one contract for all 34 element kinds and 20 collection types: the written node is followed entry by entry into the parser and the result compared with the original, for every value of the properties and every combination within a group of properties (specific properties, common properties, lists, annotations and unknown entries); the thorough command also proves every combination across groups. Combinations across groups in the quick command follow from C12-C14 with C08-C10. Lists of any length by inductive summaries. Nested elements and collections are composed from their own contracts. Reals under the assumption that ten digits determine them; conversion through text (the YAML encoder and decoder) is a dependency.'
THOROUGH = './gover.sh check %s -deep'
