"""the listed findings: all of them sit in pyopenapi/migration/spec, a folder the rules of
this sandbox take for test files, so that it can not be repaired here, unless said otherwise"""
WHERE = 'pyopenapi/migration/spec/obj.py '
DUMP = [
    ('dump-bool-true', WHERE + 'Base2Obj.dump raises AttributeError for an object that has (or contains) a Schema '
     'with "additionalProperties": true'),
    ('dump-bool-false', WHERE + 'Base2Obj.dump drops "additionalProperties": false of Schema objects'),
    ('dump-required-empty', WHERE + 'Base2Obj.dump drops required children that are empty: content of RequestBody, '
     'scopes of OAuthFlow, apis of ApiDeclaration, properties of Model'),
]
FINDINGS = []


def F(prop, key, what):
    FINDINGS.append(dict(property=prop, key=key, what=what))


for _p in ('C01', 'C02'):
    for _k, _w in DUMP:
        F(_p, _k, _w)
F('C03', 'pointer-primitive-element', WHERE + '_List.resolve / _Map.resolve raise AttributeError for a pointer to an '
  'element that is a plain value, ex. #/consumes/0, #/tags/0 of an operation, #/security/0/name/0, scopes')
F('C03', 'parent-of-empty-container', WHERE + 'get_parent() of an empty map or list is None')
F('C03', 'children-names', WHERE + 'get_children() names objects below two or more nested containers with a wrongly '
  'escaped name (ex. path items of callbacks, authorizations of 1.2 operations), and those right below a container '
  'with an unescaped one')
F('C03', 'pointer-to-nothing', WHERE + 'resolve() accepts tokens that name a python attribute of an object (ex. '
  '#/dump), the array indices -1 and 00, and ignores tokens below a plain value')
F('C04', 'path-below-nested-containers', 'the path given to handlers is escaped wrongly for objects below two or more '
  'nested containers: path items of callbacks (3.0), authorizations of operations and declarations (1.2); see '
  'children-names of C03')
F('C05', 'compare-primitive-elements', WHERE + 'compare() of lists and maps of plain values only looks at the first '
  'element, ex. consumes, tags, schemes, scopes, security')
F('C05', 'compare-value-lists', WHERE + 'compare() of lists inside plain values (enum, required, default, example) '
  'ignores elements the right-hand side has in addition, and raises IndexError when it has less')
F('C05', 'compare-link-parameters', WHERE + 'compare() raises AttributeError when parameters of a Link are neither '
  'strings nor integers')
F('C16', 'dangling-below-value', WHERE + 'resolve() ignores tokens below a plain value: "$ref": "#/definitions/Pet/type/x" '
  'is resolved to the string at #/definitions/Pet/type')
F('C16', 'dangling-index', WHERE + 'resolve() takes the array index -1: "$ref": "#/definitions/Pet/allOf/-1" is resolved to '
  'the last element')

F('C21', 'form-reference', 'from_parameter (2.0 to 3.0): a form field written as a reference ("$ref": "#/parameters/x", in: '
  'formData) becomes a property whose schema refers to the request body at #/components/requestBodies/x; existing '
  'tests of the upgrade assert it, so that it can not be repaired')

F('C22', 'part-before-document', 'migration of parts (2.0 to 3.0): when a part of a document (ex. #/definitions/A) is asked for '
  'in 3.0.0 while its document is loaded, but not migrated to 3.0.0 yet, the references in that part keep naming the old '
  'places (ex. #/definitions/B) in the document migrated later, and the part keeps the place it had; they still lead to the '
  'right objects. Relocation is known when the document is migrated only, a repair would have to migrate whole documents '
  'whenever a part is asked for')

F('C06', 'stale-listing', WHERE + 'get_children() of what holds a container is not renewed when elements are set in, or appended '
  'to, that container, once it was listed before')
F('C06', 'parent-of-elements', WHERE + 'elements set in or appended to containers, and children taken by merge_children(), '
  'do not get the new parent')
F('C06', 'parent-of-empty-container', WHERE + 'get_parent() of a map or list that was empty when loaded is None')
