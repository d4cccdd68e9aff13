import json, subprocess
F = [('C03','f71aaa5','move assignment of Array leaked the target storage and its elements'),('C04','f71aaa5','move assignment of Array'),('C06','4ae08fc','SharedArray destructor did not drop its share, so storage was never released'),
('C03','756f2ff','Array(n) with n*sizeof(T) overflowing was under-allocated'),('C03','86bfed1','Array::reallocate and copy assignment left a dangling storage pointer when memory was refused (double release later)'),
('C11','69c5320','Set::restrict kept the wrong elements'),('C11','f8351f2','apply on Set did not compile'),('C13','0369692','List::append of itself did not terminate'),('C13','48e79d1','LinkedList range constructor and append did not compile'),
('C13','976b15f','make_array and make_list of a List returned a one-element container holding the whole list'),('C03','50ba256','Array of numbers from a size and a value of the same type did not compile'),('C13','8c8bb30','make_list(Array) did not compile'),('C10','2ec1007','binary_word.hpp did not compile on its own'),('C10','6e99d22','reading a BinaryWord from empty input used an uninitialised symbol'),('C10','4db2f84','writing a BinaryWord changed the stream flags and depended on them'),
('C09','517e661','BinaryWord::erase_prefix erased nothing (or too few bits) from words of 2^31 or more bits'),('C09','92f29d3','BinaryWord self-append did not terminate'),('C16','8759e29','read_sequence lost the character after an empty or malformed list'),('C15','e5dd0b3','printing a tuple did not compile'),('C26','8d8b008','HELPER_NOT_IMPLEMENTED did not compile'),
('C29','a8ffe68','IsWritable was false for writable types'),('C28','42f108d','stack_trace used a null symbol table'),('C02','06c22db','LRUCache::put stored a dangling value when given a reference to the entry it evicts'),
('C19','cb93345','dynamic_handle_cast was not callable'),('C19','2fab1c6','mutable dynamic_handle_extract wrote through to other handles'),('C27','775b70a','HELPER_TEST_WITHIN overflowed on integers of opposite sign and misjudged mixed signedness and negative tolerances'),('C27','9912207','HELPER_TEST_CALL let an exception of a non-standard type escape uncounted'),('C27','8ea35a3','HELPER_TEST_WITHIN accepted large negative differences')]
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump([dict(property=p, status='fixed', commit=c, what=w, line=f'fixed: property={p} {c} {w}') for p, c, w in F], open(f'{R}/known_findings.json', 'w'), indent=1)
