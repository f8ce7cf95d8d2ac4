VEC, LST, SET, TREE, SP = ('nestl/implementation/vector.hpp', 'nestl/implementation/list.hpp', 'nestl/implementation/set.hpp',
                           'nestl/implementation/detail/red_black_tree.hpp', 'nestl/implementation/shared_ptr.hpp')
CLS = 'nestl/class_operations.hpp'
ASM = ' Trusted: the clang front end, the analyser itself and its models of the archetype calls; assumes user types meet their documented requirements.'

R('C01', 'Operations never fail silently: the error object tells the truth',
  'After any non-throwing operation of the vector, list, set or shared pointers that takes an error object, the error is set exactly when '
  'something the operation needed failed (storage was refused, an element could not be created or initialised, the request exceeds the maximum size). '
  'A clear error means the whole requested effect took place, and no operation reports an error when nothing failed.',
  ['inputs', 'fault_sequences', 'histories'],
  'for every container state, every argument, and every choice of which allocation or element operation fails',
  'The tests inject a failure at one or two fixed points (first allocation, first copy) of a few operations; they cannot try every failure point of every operation at every size.',
  [VEC, LST, SP, CLS],
  [('error checks after each allocation and element construction', VEC), ('node creation and its error checks', LST), ('creation functions', SP), ('construct/assign wrappers turning failures into errors', CLS)],
  'proof', 'All operations, all states, all failure points, by a fixpoint over abstract states.' + ASM)

R('C02', 'Every allocated block is returned exactly once to the allocator it came from',
  'Each block of storage obtained from an allocator is given back exactly once, with the same count, to that same allocator (or one it was moved or swapped into), and is owned by exactly one container or pointer until then. '
  'This holds on success and on every failure path, including when elements throw or fail to initialise. '
  'Destroying a container or the last reference leaves no block behind, and no block is freed while it is still in use.',
  ['inputs', 'fault_sequences', 'histories'],
  'for every operation, state and failure point, with stateful allocators that are not interchangeable',
  'A leak on a failure path, or a block returned to the wrong one of two allocators, is invisible to the assertions of the tests, which mostly use one global allocator.',
  [VEC, LST, SP, 'nestl/allocator.hpp'],
  [('storage replacement and release', VEC), ('node create/put guards', LST), ('control block release', SP)],
  'proof', 'Ownership typestate of every block tracked on every path to a fixpoint.' + ASM)

R('C03', 'Every element is created once, destroyed once, and never touched while not alive',
  'Every element a container or shared pointer holds is constructed exactly once in raw storage and destroyed exactly once, on success and on every failure path. '
  'No operation assigns to, reads, moves from or destroys an element that is not alive, or constructs over one that is. '
  'Elements outside the ones an operation is asked to remove or replace stay alive.',
  ['inputs', 'fault_sequences', 'histories'],
  'for every operation, every state, every element type (throwing, non-throwing, two-phase) and every failure point',
  'The test element types do not track their lifetime, so a double or missing destruction, or an assignment to raw memory, passes unnoticed.',
  [VEC, LST, SP, 'nestl/detail/destroy.hpp', CLS],
  [('element shifting and construction at the end', VEC), ('destroyer guards', 'nestl/detail/destroy.hpp'), ('node value construction', LST), ('object construction in the control block', SP)],
  'proof', 'Typestate (raw / alive / moved-from) of every element slot, on every path to a fixpoint.' + ASM)

R('C04', 'Exceptions never escape a non-throwing operation',
  'When a user element throws from its default constructor, copy constructor, converting constructor or copy assignment, the non-throwing operation that called it catches the exception and returns with the error object set. '
  'The exception neither propagates, nor terminates the program, nor is dropped with a clear error. '
  'Everything the operation had half built by then is cleaned up.',
  ['inputs', 'fault_sequences'],
  'for every non-throwing operation and every call into user code that may throw, at every point of the operation',
  'One throw test exists for a single operation; the throw can come from any of the element calls inside any operation.',
  [VEC, LST, SP, CLS, 'nestl/has_exceptions/detail/class_operations.hpp'],
  [('catch-and-convert wrappers', 'nestl/has_exceptions/detail/class_operations.hpp'), ('operations routing every user call through them', VEC)],
  'proof', 'Exceptional control flow of every operation followed in the IR, for throwing elements.' + ASM)

R('C05', 'Vector operations have exactly the documented effect on the sequence',
  'Whenever a vector operation reports success, the vector holds exactly the sequence its documentation promises: every element is the right value in the right place, the size is right, the capacity is at least the size, and the returned position or reference denotes the promised element. '
  'While the capacity suffices, inserting and resizing keep the storage, so positions in front of the change stay valid. This includes operations given an element of the vector itself, growth, shrinking, assignment from ranges, element access and comparison.',
  ['inputs', 'histories'],
  'for every prior content and capacity, every position and count and every source range',
  'Tests use vectors of at most a few elements; which internal path runs depends on the relation of size, capacity, position and count.',
  [VEC, 'nestl/algorithm.hpp', 'nestl/detail/uninitialised_copy.hpp'],
  [('insertion and growth paths', VEC), ('range assignment', VEC)],
  'proof', 'Content tracked symbolically as intervals of the input sequences, fixpoint over all sizes; the multi-element range insertion converges only partly and is then explored for its first iterations.' + ASM)

R('C06', 'A failed vector operation leaves a valid vector and keeps what it promises',
  'When a vector operation reports an error, the vector is still fully usable: every element in it is alive, its size, capacity and storage agree, and it can be destroyed without leak or double destruction. '
  'Appending, reserving, shrinking and growth by reallocation that fail leave content and size unchanged; other failed operations keep only elements that were there or were requested.',
  ['inputs', 'fault_sequences'],
  'for every operation, prior state and failing allocation or element operation',
  'Needs a failure at a chosen inner step of a chosen path, then inspection of the damaged object; tests check only the returned error.',
  [VEC, CLS],
  [('destroy guards and delayed commit of the new storage', VEC)],
  'proof', 'Post-state of every failing path compared with the promised state.' + ASM)

R('C07', 'A list is always a sound ring of exactly its own nodes',
  'After every list operation, successful or failed, following the list forwards and backwards from any position visits the same nodes in opposite order and returns to the start, each node belongs to exactly one list, and size, emptiness and the end positions agree with it. '
  'Positions of elements that an operation does not remove stay valid.',
  ['inputs', 'histories', 'fault_sequences'],
  'for every list length, every position and every failure point',
  'Link damage typically shows only when iterating backwards, or from a particular position; tests iterate forwards over short lists.',
  [LST],
  [('hook, unhook, transfer and swap of nodes', LST)],
  'proof', 'Shape analysis of the ring with list segments of unbounded length; every operation starts from and must re-establish a sound ring.' + ASM)

R('C08', 'List operations have exactly the documented effect on the sequence',
  'Whenever a list operation reports success, the list holds exactly the sequence promised: elements in order with the right values, insertion before the given position, ranges inserted in order, the returned position denoting the promised element. '
  'A failed insertion of one element leaves the list as it was; other failed operations leave a sound list of elements that were there or were requested, in order.',
  ['inputs', 'histories', 'fault_sequences'],
  'for every list content, position, count, source range and failure point',
  'Tests exercise a few literal lists.',
  [LST],
  [('insert, erase, assign', LST)],
  'proof', 'Node order and element values tracked symbolically for lists of any length.' + ASM)

R('C09', 'Splicing moves exactly the requested elements',
  'Splicing a whole list, one element or a range, from another list or within the same list, puts exactly those elements, in order, immediately before the given position; the source keeps exactly the rest. '
  'No element is copied, moved, created or destroyed, and no storage is requested or released.',
  ['inputs', 'histories'],
  'for every pair of lists, every position and every range, including empty ranges, whole lists and splices within one list',
  'No test covers splicing.',
  [LST],
  [('transfer of a node range', LST)],
  'proof', 'Both rings tracked as symbolic segments of any length.' + ASM)

R('C10', 'A set holds distinct keys in order; its operations do what they promise',
  'A set always holds its keys in strictly ascending order of its own comparison object, each key once. A successful insertion of an absent key adds exactly that key and returns its position and true; of a present key it changes nothing and returns the position of the existing element and false. '
  'Erasing a key or a position removes exactly that element and returns the count or the next position; lookup finds a key exactly when it is present. '
  'A failed insertion or copy reports an error and loses no node; a successful copy has the same keys and the order of its source, and moving transfers all keys and leaves the source empty.',
  ['inputs', 'fault_sequences', 'histories'],
  'for every set of any size and tree shape, every key and position, every order object and every failing allocation or element operation',
  'The tests insert a handful of integers; which rotations and which of the many erase cases run depends on the shape and colours of the whole tree.',
  [SET, TREE],
  [('search for the insertion place and equality test', TREE), ('insertion, erasure and relinking', TREE), ('copying', TREE), ('interface', SET)],
  'proof', 'Fixpoint over an abstract domain of search trees (all shapes and sizes); erasure does not converge and is instead explored exactly for every tree within the first two iterations of each loop.' + ASM)

R('C11', 'The search tree of a set stays balanced',
  'After every operation on a set, its search tree satisfies the red-black rules: the root is black, no red node has a red child, and every path from the root to a missing child passes the same number of black nodes. '
  'Hence its depth is logarithmic in the number of elements, and lookup, insertion and erasure never degrade to linear time.',
  ['inputs', 'histories'],
  'for every tree shape and colouring that can occur, every insertion place and every erased position',
  'A wrong colour or a missed rotation leaves the contents right; no test can see it, and it only shows as slow operations on particular histories.',
  [TREE, SET],
  [('rebalancing after insertion', TREE), ('rebalancing for erasure', TREE), ('rotations', TREE), ('copying of colours', TREE)],
  'proof', 'Colours and black heights are tracked as linear terms; insertion, copying, moving and clearing to a fixpoint, erasure exactly for every tree within the first two iterations of each loop.' + ASM)

R('C12', 'Set bookkeeping and iteration are consistent',
  'The size of a set equals the number of its elements; begin and end, reverse iteration and the stored first and last elements agree with the order of the keys. '
  'Incrementing or decrementing an iterator moves to exactly the next or previous key from every position, including to and from the end; every node is linked exactly once and knows its parent, so traversal visits each element once. '
  'Iterators to elements that stay in the set remain valid: elements never move to another node.',
  ['inputs', 'histories'],
  'for every set of any size and shape and every position in it, after every operation',
  'Tests iterate over a few small sets; a wrong parent link or stale first/last link only shows for particular shapes.',
  [TREE, SET],
  [('increment and decrement', TREE), ('leftmost/rightmost maintenance', TREE), ('parent links in rotations and relinking', TREE), ('size maintenance', TREE)],
  'proof', 'Link structure of the whole tree checked in every final state of every operation; fixpoint except for erasure, which is explored exactly within the first two iterations of each loop.' + ASM)

R('C13', 'Shared objects live exactly as long as shared references exist',
  'A shared object stays alive exactly while at least one shared pointer owns it and is destroyed exactly once, by whichever call drops the last one; its control block is released exactly once, after the last shared and weak reference is gone. '
  'Reference counts reported equal the number of owners, and a weak pointer locks to a usable pointer exactly while the object lives. '
  'This holds under self-assignment, aliasing, conversion, moves, and objects that hold references to themselves or to their successors.',
  ['histories', 'inputs'],
  'for every number of existing shared and weak references and every aliasing of the operands',
  'Tests hold one or two references; the order of acquire and release matters only for self-assignment, last-owner and self-referring cases.',
  [SP],
  [('counter increments and decrements', SP), ('assignment and reset order', SP), ('lock', SP)],
  'proof', 'Reference counts are symbolic (any value); every operation on every alias pattern of its operands; single-threaded, as the library documents no atomic counters.' + ASM)

R('C14', 'Move and swap transfer everything and leave the source valid and empty',
  'Move construction and move assignment of vectors, lists, sets and shared and weak pointers, and swap of all but sets, transfer the whole content, storage and allocator without creating, copying or destroying any transferred element, and leave the moved-from object empty and usable; whatever the target held before is destroyed and released exactly once, with the allocator it came from. '
  'Inserting by move consumes the argument and places its value. Swapping a list with itself changes nothing, and a vector, list or set that is moved onto itself stays valid, either unchanged or empty.',
  ['inputs', 'histories'],
  'for every pair of contents, capacities and allocators, including empty ones',
  'Tests move between short containers with the same stateless allocator.',
  [VEC, LST, SP],
  [('move constructors, move assignment and swap', VEC), ('node transfer', LST)],
  'proof', 'Both operands tracked symbolically.' + ASM)

R('C15', 'Copies are complete and independent of their source',
  'A successful copy of a vector, list or set, by copying or by the two-phase initialisation entry point, holds the same values in the same order in storage of its own; the source is unchanged and shares nothing with it. '
  'Copying a container onto itself changes nothing, and a failed copy leaves the source untouched and the target destructible.',
  ['inputs', 'fault_sequences'],
  'for every source and target content and every failure point',
  'Tests copy small containers and do not check independence or failure.',
  [VEC, LST],
  [('copy operations', VEC), ('copy operations', LST)],
  'proof', 'Source and target tracked symbolically.' + ASM)

R('C22', 'Iterators and const access see the same elements in the same order',
  'Const and non-const, plain and c-prefixed, forward and reverse accessors of the vector, list and set denote the same positions; stepping forward and back are inverse, comparison is identity of position, and dereferencing yields the element at the position. '
  'Size, emptiness and first/last access agree with iteration, and no accessor changes the container.',
  ['inputs', 'histories'],
  'for every container content and every position in it',
  'Tests iterate forward with one kind of iterator; several of the accessors are never called.',
  [VEC, LST],
  [('begin/end families', VEC), ('list iterators', LST)],
  'proof', 'Each accessor analysed for all contents and positions.' + ASM)

R('C16', 'The throwing interface throws exactly when the operation fails',
  'With exceptions enabled, each operation of the throwing vector and list behaves like its non-throwing counterpart and returns the same result when it succeeds. '
  'When the operation fails, it throws, and the exception is the one kept by the error object: the element\'s own exception when an element threw, bad_alloc or length_error otherwise. '
  'It never swallows a failure, never throws without one, and after an exception the container is in the state the non-throwing operation leaves, with nothing leaked.',
  ['inputs', 'fault_sequences', 'histories'],
  'for every operation of the throwing interface, every container state and every failure point',
  'The tests run the throwing interface on a few successful calls and check one exception; a forgotten check of the error object after one call is invisible to them.',
  ['nestl/has_exceptions/vector.hpp', 'nestl/has_exceptions/list.hpp', 'nestl/has_exceptions/exception_ptr_error.hpp'],
  [('error check and rethrow after each call', 'nestl/has_exceptions/vector.hpp'), ('error check and rethrow after each call', 'nestl/has_exceptions/list.hpp')],
  'proof', 'Every public operation of both throwing classes, all states and failure points.' + ASM)

R('C17', 'Error objects keep what was put into them',
  'A fresh error object is clear, and an object is set exactly after a failure was stored in it; the stored cause is kept unchanged through copying and assignment, and a later failure replaces an earlier one. '
  'An error code reads as not-enough-memory after a refused allocation and as value-too-large after an oversized request; an error that keeps an exception rethrows bad_alloc, length_error, or the very exception it was given, never a different one and never nothing.',
  ['inputs', 'histories'],
  'for every error code and every exception, through every sequence of storing, copying and rethrowing',
  'The tests check two error codes after real failures; they do not look at copies, replacement, or which exception is rethrown.',
  ['nestl/no_exceptions/errc_based_error.hpp', 'nestl/has_exceptions/exception_ptr_error.hpp', 'nestl/default_operation_error.hpp'],
  [('code storage', 'nestl/no_exceptions/errc_based_error.hpp'), ('exception storage and rethrow', 'nestl/has_exceptions/exception_ptr_error.hpp')],
  'proof', 'Each operation of the error classes analysed for all codes, with the exception runtime modelled.' + ASM)

R('C18', 'Algorithms cover exactly their input range and stop at the first error',
  'The copying algorithms write exactly the elements of the input range (or those the predicate accepts) in order, return the end of what they wrote, and copy onto an earlier part of the same range correctly; when one assignment fails they stop there, report the error, and leave the rest untouched. '
  'The comparison algorithms answer as equality and lexicographical order are defined, with the given predicate or ordering, and read nothing outside the ranges.',
  ['inputs', 'fault_sequences'],
  'for every range length, iterator kind, predicate and ordering, and every assignment that may fail',
  'The algorithms have no tests of their own; they run only inside container operations on a handful of elements.',
  ['nestl/algorithm.hpp', 'nestl/class_operations.hpp'],
  [('loops over the ranges with error checks', 'nestl/algorithm.hpp')],
  'proof', 'Loops taken to a fixpoint for all lengths.' + ASM)

R('C19', 'The default allocator reports refusal instead of throwing and frees what it gave',
  'The default allocator returns storage for exactly the requested number of objects, or sets the error when the system refuses or the size in bytes cannot be represented; it never throws and never hands out less than was asked. '
  'What it allocated is returned to the system exactly once by its deallocation, also through a copy, a rebound copy, or the allocator traits, and shared pointers created without an allocator use it.',
  ['inputs', 'fault_sequences'],
  'for every requested count, including counts whose size in bytes overflows, and every refusal by the system',
  'No test asks the default allocator for a count whose byte size overflows, nor makes the system refuse.',
  ['nestl/allocator.hpp', 'nestl/allocator_traits.hpp', 'nestl/detail/allocator_traits_helper.hpp'],
  [('size computation and nothrow allocation', 'nestl/allocator.hpp'), ('forwarding', 'nestl/allocator_traits.hpp')],
  'proof', 'All counts, with the byte size computed modulo the word size as the machine does.' + ASM)

R('C20', 'Type-level promises hold in every supported configuration',
  'In every supported language version, with and without exceptions, both compilers accept all documented operations for minimal allocators, non-copyable two-phase types, nested containers and plain types. '
  'The operations promised not to throw are declared so; non-throwing containers cannot be copied implicitly, const access never yields mutable elements, elements of a set cannot be modified, and conversions exist only where documented. '
  'The throwing or non-throwing face, the default error and the default allocator follow the configuration, and allocator traits supply the documented defaults and respect what an allocator defines.',
  ['configurations', 'inputs'],
  'for every compiler, language version and exception setting, and every client that type-checks against the interface',
  'Members of templates are compiled only when used: the tests use part of the interface, in one configuration, and cannot test that something must not compile.',
  ['nestl/vector.hpp', 'nestl/list.hpp', 'nestl/set.hpp', 'nestl/shared_ptr.hpp', 'nestl/allocator_traits.hpp', 'nestl/exception_support.hpp', CLS, VEC, LST, SET, SP],
  [('configuration switch', 'nestl/exception_support.hpp'), ('defaults', 'nestl/allocator_traits.hpp'), ('declarations', VEC), ('declarations', LST), ('declarations', SET)],
  'proof', 'Static assertions and instantiations checked by g++ 13 and clang 18 for four language versions with and without exceptions; the compilers\' type checkers are the deciding step.',
  technique='type-level witnesses: static assertions and instantiations that a violating library cannot compile')

R('C21', 'Two-phase initialisation and single-object construction keep the contract',
  'Constructing one object, or a range of copies, either yields exactly the requested live object and a clear error, or sets the error and leaves raw storage behind; an object whose second phase fails is destroyed exactly once. '
  'A type with a two-phase initialiser is first constructed by its default constructor and then initialised exactly once with the given arguments; other types are constructed directly. Containers and shared pointers create all their elements this way.',
  ['inputs', 'fault_sequences'],
  'for every element kind (non-throwing, throwing, two-phase), every argument and every failing step',
  'The tests use one two-phase type that fails in one place; they do not count constructions and destructions.',
  [CLS, 'nestl/no_exceptions/detail/class_operations.hpp', 'nestl/has_exceptions/detail/class_operations.hpp', 'nestl/detail/uninitialised_copy.hpp'],
  [('two-phase dispatch and clean-up', CLS), ('range construction with rollback', 'nestl/detail/uninitialised_copy.hpp')],
  'proof', 'Each construction entry point, and every container operation that creates two-phase elements, for all states and failure points.' + ASM)

R('C23', 'Merging and sorting lists give the stable sorted result and lose nothing',
  'Merging two sorted lists leaves all elements of both in the target in sorted order, elements of the target before equal ones of the other list, and the other list empty. '
  'Sorting arranges exactly the elements of the list in ascending order and keeps the order of equal ones. '
  'Both only relink nodes: no element is copied, moved, created or destroyed, no storage is requested or released, and the order is the given comparison or operator <.',
  ['inputs', 'histories'],
  'for every pair of sorted lists of any length and every interleaving of their elements; for every list to sort',
  'The tests merge and sort a single short list of distinct numbers; which elements are relinked when depends on the order of all elements.',
  [LST, 'nestl/has_exceptions/list.hpp'],
  [('merge loop', LST), ('merge sort over partial lists', LST), ('forwarding', 'nestl/has_exceptions/list.hpp')],
  'proof', 'Merging by a fixpoint for all lengths and interleavings; sorting is analysed with the verified specification of merging in place of its calls, for all lists of up to 9 (thorough: 20) elements.' + ASM)
