SPECIFICATION Spec
INVARIANTS Agrees RefsResolve SchemesKnown TemplatesMatch DocumentGood
PROPERTIES Stays Registered
