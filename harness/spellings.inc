// the documented spellings (the oracle of C18): SPELL_<set>(enumerator, text)
#ifndef SPELL_OPS
#define SPELL_OPS(k, s)
#endif
#ifndef SPELL_SPECS
#define SPELL_SPECS(k, s)
#endif
#ifndef SPELL_TOKS
#define SPELL_TOKS(k, s)
#endif
#ifndef SPELL_CODES
#define SPELL_CODES(k, s)
#endif
#ifndef SPELL_ACCESS
#define SPELL_ACCESS(k, s)
#endif
#ifndef SPELL_MODFLAG
#define SPELL_MODFLAG(k, s)
#endif
#ifndef SPELL_MACRO
#define SPELL_MACRO(k, s)
#endif
#ifndef SPELL_KIND
#define SPELL_KIND(k, s)
#endif
SPELL_OPS(Op_Invalid, "INVALID")
SPELL_OPS(Op_Assign, "=")
SPELL_OPS(Op_Assign_Add, "+=")
SPELL_OPS(Op_Assign_Subtract, "-=")
SPELL_OPS(Op_Assign_Multiply, "*=")
SPELL_OPS(Op_Assign_Divide, "/=")
SPELL_OPS(Op_Assign_Modulo, "%=")
SPELL_OPS(Op_Assign_BAnd, "&=")
SPELL_OPS(Op_Assign_BOr, "|=")
SPELL_OPS(Op_Assign_BXOr, "^=")
SPELL_OPS(Op_Assign_LShift, "<<=")
SPELL_OPS(Op_Assign_RShift, ">>=")
SPELL_OPS(Op_Increment, "++")
SPELL_OPS(Op_Decrement, "--")
SPELL_OPS(Op_Unary_Plus, "+")
SPELL_OPS(Op_Unary_Minus, "-")
SPELL_OPS(Op_UnaryNot, "!")
SPELL_OPS(Op_Add, "+")
SPELL_OPS(Op_Subtract, "-")
SPELL_OPS(Op_Multiply, "*")
SPELL_OPS(Op_Divide, "/")
SPELL_OPS(Op_Modulo, "%")
SPELL_OPS(Op_BNot, "~")
SPELL_OPS(Op_BAnd, "&")
SPELL_OPS(Op_BOr, "|")
SPELL_OPS(Op_BXOr, "^")
SPELL_OPS(Op_LShift, "<<")
SPELL_OPS(Op_RShift, ">>")
SPELL_OPS(Op_LAnd, "&&")
SPELL_OPS(Op_LOr, "||")
SPELL_OPS(Op_LEqual, "==")
SPELL_OPS(Op_LNot, "!=")
SPELL_OPS(Op_Lesser, "<")
SPELL_OPS(Op_Greater, ">")
SPELL_OPS(Op_LesserEqual, "<=")
SPELL_OPS(Op_GreaterEqual, ">=")
SPELL_OPS(Op_Subscript, "[]")
SPELL_OPS(Op_Indirection, "*")
SPELL_OPS(Op_AddressOf, "&")
SPELL_OPS(Op_MemberOfPointer, "->")
SPELL_OPS(Op_PtrToMemOfPtr, "->*")
SPELL_OPS(Op_FunctionCall, "()")
SPELL_OPS(Op_Comma, ",")
SPELL_OPS(Op_New, "new")
SPELL_OPS(Op_NewArray, "new[]")
SPELL_OPS(Op_Delete, "delete")
SPELL_OPS(Op_DeleteArray, "delete[]")
SPELL_SPECS(Spec_Invalid, "INVALID")
SPELL_SPECS(Spec_Consteval, "consteval")
SPELL_SPECS(Spec_Constexpr, "constexpr")
SPELL_SPECS(Spec_Constinit, "constinit")
SPELL_SPECS(Spec_Explicit, "explicit")
SPELL_SPECS(Spec_External_Linkage, "extern")
SPELL_SPECS(Spec_ForceInline, "forceinline")
SPELL_SPECS(Spec_Global, "global")
SPELL_SPECS(Spec_Inline, "inline")
SPELL_SPECS(Spec_Internal_Linkage, "internal")
SPELL_SPECS(Spec_Local_Persist, "local_persist")
SPELL_SPECS(Spec_Mutable, "mutable")
SPELL_SPECS(Spec_NeverInline, "neverinline")
SPELL_SPECS(Spec_Ptr, "*")
SPELL_SPECS(Spec_Ref, "&")
SPELL_SPECS(Spec_Register, "register")
SPELL_SPECS(Spec_Restrict, "restrict")
SPELL_SPECS(Spec_RValue, "&&")
SPELL_SPECS(Spec_Static, "static")
SPELL_SPECS(Spec_Thread_Local, "thread_local")
SPELL_SPECS(Spec_Virtual, "virtual")
SPELL_SPECS(Spec_Const, "const")
SPELL_SPECS(Spec_Final, "final")
SPELL_SPECS(Spec_NoExceptions, "noexcept")
SPELL_SPECS(Spec_Override, "override")
SPELL_SPECS(Spec_Pure, "= 0")
SPELL_SPECS(Spec_Delete, "= delete")
SPELL_SPECS(Spec_Volatile, "volatile")
SPELL_TOKS(Tok_Invalid, "__invalid__")
SPELL_TOKS(Tok_Access_Private, "private")
SPELL_TOKS(Tok_Access_Protected, "protected")
SPELL_TOKS(Tok_Access_Public, "public")
SPELL_TOKS(Tok_Access_MemberSymbol, ".")
SPELL_TOKS(Tok_Access_StaticSymbol, "::")
SPELL_TOKS(Tok_Ampersand, "&")
SPELL_TOKS(Tok_Ampersand_DBL, "&&")
SPELL_TOKS(Tok_Assign_Classifer, ":")
SPELL_TOKS(Tok_Attribute_Open, "[[")
SPELL_TOKS(Tok_Attribute_Close, "]]")
SPELL_TOKS(Tok_BraceCurly_Open, "{")
SPELL_TOKS(Tok_BraceCurly_Close, "}")
SPELL_TOKS(Tok_BraceSquare_Open, "[")
SPELL_TOKS(Tok_BraceSquare_Close, "]")
SPELL_TOKS(Tok_Paren_Open, "(")
SPELL_TOKS(Tok_Paren_Close, ")")
SPELL_TOKS(Tok_Comment, "__comment__")
SPELL_TOKS(Tok_Comment_End, "__comment_end__")
SPELL_TOKS(Tok_Comment_Start, "__comment_start__")
SPELL_TOKS(Tok_Char, "__character__")
SPELL_TOKS(Tok_Comma, ",")
SPELL_TOKS(Tok_Decl_Class, "class")
SPELL_TOKS(Tok_Decl_GNU_Attribute, "__attribute__")
SPELL_TOKS(Tok_Decl_MSVC_Attribute, "__declspec")
SPELL_TOKS(Tok_Decl_Enum, "enum")
SPELL_TOKS(Tok_Decl_Extern_Linkage, "extern")
SPELL_TOKS(Tok_Decl_Friend, "friend")
SPELL_TOKS(Tok_Decl_Module, "module")
SPELL_TOKS(Tok_Decl_Namespace, "namespace")
SPELL_TOKS(Tok_Decl_Operator, "operator")
SPELL_TOKS(Tok_Decl_Struct, "struct")
SPELL_TOKS(Tok_Decl_Template, "template")
SPELL_TOKS(Tok_Decl_Typedef, "typedef")
SPELL_TOKS(Tok_Decl_Using, "using")
SPELL_TOKS(Tok_Decl_Union, "union")
SPELL_TOKS(Tok_Identifier, "__identifier__")
SPELL_TOKS(Tok_Module_Import, "import")
SPELL_TOKS(Tok_Module_Export, "export")
SPELL_TOKS(Tok_NewLine, "__new_line__")
SPELL_TOKS(Tok_Number, "__number__")
SPELL_TOKS(Tok_Operator, "__operator__")
SPELL_TOKS(Tok_Preprocess_Hash, "#")
SPELL_TOKS(Tok_Preprocess_Define, "define")
SPELL_TOKS(Tok_Preprocess_Define_Param, "__define_param__")
SPELL_TOKS(Tok_Preprocess_If, "if")
SPELL_TOKS(Tok_Preprocess_IfDef, "ifdef")
SPELL_TOKS(Tok_Preprocess_IfNotDef, "ifndef")
SPELL_TOKS(Tok_Preprocess_ElIf, "elif")
SPELL_TOKS(Tok_Preprocess_Else, "else")
SPELL_TOKS(Tok_Preprocess_EndIf, "endif")
SPELL_TOKS(Tok_Preprocess_Include, "include")
SPELL_TOKS(Tok_Preprocess_Pragma, "pragma")
SPELL_TOKS(Tok_Preprocess_Content, "__macro_content__")
SPELL_TOKS(Tok_Preprocess_Macro_Expr, "__macro_expression__")
SPELL_TOKS(Tok_Preprocess_Macro_Stmt, "__macro_statment__")
SPELL_TOKS(Tok_Preprocess_Macro_Typename, "__macro_typename__")
SPELL_TOKS(Tok_Preprocess_Unsupported, "__unsupported__")
SPELL_TOKS(Tok_Spec_Alignas, "alignas")
SPELL_TOKS(Tok_Spec_Const, "const")
SPELL_TOKS(Tok_Spec_Consteval, "consteval")
SPELL_TOKS(Tok_Spec_Constexpr, "constexpr")
SPELL_TOKS(Tok_Spec_Constinit, "constinit")
SPELL_TOKS(Tok_Spec_Explicit, "explicit")
SPELL_TOKS(Tok_Spec_Extern, "extern")
SPELL_TOKS(Tok_Spec_Final, "final")
SPELL_TOKS(Tok_Spec_ForceInline, "forceinline")
SPELL_TOKS(Tok_Spec_Global, "global")
SPELL_TOKS(Tok_Spec_Inline, "inline")
SPELL_TOKS(Tok_Spec_Internal_Linkage, "internal")
SPELL_TOKS(Tok_Spec_LocalPersist, "local_persist")
SPELL_TOKS(Tok_Spec_Mutable, "mutable")
SPELL_TOKS(Tok_Spec_NeverInline, "neverinline")
SPELL_TOKS(Tok_Spec_Override, "override")
SPELL_TOKS(Tok_Spec_Restrict, "restrict")
SPELL_TOKS(Tok_Spec_Static, "static")
SPELL_TOKS(Tok_Spec_ThreadLocal, "thread_local")
SPELL_TOKS(Tok_Spec_Volatile, "volatile")
SPELL_TOKS(Tok_Spec_Virtual, "virtual")
SPELL_TOKS(Tok_Star, "*")
SPELL_TOKS(Tok_Statement_End, ";")
SPELL_TOKS(Tok_StaticAssert, "static_assert")
SPELL_TOKS(Tok_String, "__string__")
SPELL_TOKS(Tok_Type_Typename, "typename")
SPELL_TOKS(Tok_Type_Unsigned, "unsigned")
SPELL_TOKS(Tok_Type_Signed, "signed")
SPELL_TOKS(Tok_Type_Short, "short")
SPELL_TOKS(Tok_Type_Long, "long")
SPELL_TOKS(Tok_Type_bool, "bool")
SPELL_TOKS(Tok_Type_char, "char")
SPELL_TOKS(Tok_Type_int, "int")
SPELL_TOKS(Tok_Type_double, "double")
SPELL_TOKS(Tok_Type_MS_int8, "__int8")
SPELL_TOKS(Tok_Type_MS_int16, "__int16")
SPELL_TOKS(Tok_Type_MS_int32, "__int32")
SPELL_TOKS(Tok_Type_MS_int64, "__int64")
SPELL_TOKS(Tok_Type_MS_W64, "_W64")
SPELL_TOKS(Tok_Varadic_Argument, "...")
SPELL_TOKS(Tok___Attributes_Start, "__attrib_start__")
SPELL_CODES(CT_Invalid, "__NA__")
SPELL_CODES(CT_Untyped, "__NA__")
SPELL_CODES(CT_NewLine, "__NA__")
SPELL_CODES(CT_Comment, "//")
SPELL_CODES(CT_Access_Private, "private")
SPELL_CODES(CT_Access_Protected, "protected")
SPELL_CODES(CT_Access_Public, "public")
SPELL_CODES(CT_PlatformAttributes, "__NA__")
SPELL_CODES(CT_Class, "class")
SPELL_CODES(CT_Class_Fwd, "class")
SPELL_CODES(CT_Class_Body, "__NA__")
SPELL_CODES(CT_Constructor, "__NA__")
SPELL_CODES(CT_Constructor_Fwd, "__NA__")
SPELL_CODES(CT_Destructor, "__NA__")
SPELL_CODES(CT_Destructor_Fwd, "__NA__")
SPELL_CODES(CT_Enum, "enum")
SPELL_CODES(CT_Enum_Fwd, "enum")
SPELL_CODES(CT_Enum_Body, "__NA__")
SPELL_CODES(CT_Enum_Class, "enum class")
SPELL_CODES(CT_Enum_Class_Fwd, "enum class")
SPELL_CODES(CT_Execution, "__NA__")
SPELL_CODES(CT_Export_Body, "__NA__")
SPELL_CODES(CT_Extern_Linkage, "extern")
SPELL_CODES(CT_Extern_Linkage_Body, "extern")
SPELL_CODES(CT_Friend, "friend")
SPELL_CODES(CT_Function, "__NA__")
SPELL_CODES(CT_Function_Fwd, "__NA__")
SPELL_CODES(CT_Function_Body, "__NA__")
SPELL_CODES(CT_Global_Body, "__NA__")
SPELL_CODES(CT_Module, "module")
SPELL_CODES(CT_Namespace, "namespace")
SPELL_CODES(CT_Namespace_Body, "__NA__")
SPELL_CODES(CT_Operator, "operator")
SPELL_CODES(CT_Operator_Fwd, "operator")
SPELL_CODES(CT_Operator_Member, "operator")
SPELL_CODES(CT_Operator_Member_Fwd, "operator")
SPELL_CODES(CT_Operator_Cast, "operator")
SPELL_CODES(CT_Operator_Cast_Fwd, "operator")
SPELL_CODES(CT_Parameters, "__NA__")
SPELL_CODES(CT_Parameters_Define, "__NA__")
SPELL_CODES(CT_Preprocess_Define, "define")
SPELL_CODES(CT_Preprocess_Include, "include")
SPELL_CODES(CT_Preprocess_If, "if")
SPELL_CODES(CT_Preprocess_IfDef, "ifdef")
SPELL_CODES(CT_Preprocess_IfNotDef, "ifndef")
SPELL_CODES(CT_Preprocess_ElIf, "elif")
SPELL_CODES(CT_Preprocess_Else, "else")
SPELL_CODES(CT_Preprocess_EndIf, "endif")
SPELL_CODES(CT_Preprocess_Pragma, "pragma")
SPELL_CODES(CT_Specifiers, "__NA__")
SPELL_CODES(CT_Struct, "struct")
SPELL_CODES(CT_Struct_Fwd, "struct")
SPELL_CODES(CT_Struct_Body, "__NA__")
SPELL_CODES(CT_Template, "template")
SPELL_CODES(CT_Typedef, "typedef")
SPELL_CODES(CT_Typename, "__NA__")
SPELL_CODES(CT_Union, "union")
SPELL_CODES(CT_Union_Fwd, "union")
SPELL_CODES(CT_Union_Body, "__NA__")
SPELL_CODES(CT_Using, "using")
SPELL_CODES(CT_Using_Namespace, "using namespace")
SPELL_CODES(CT_Variable, "__NA__")
SPELL_ACCESS(AccessSpec_Default, "")
SPELL_ACCESS(AccessSpec_Private, "private")
SPELL_ACCESS(AccessSpec_Protected, "protected")
SPELL_ACCESS(AccessSpec_Public, "public")
SPELL_MODFLAG(ModuleFlag_None, "__none__")
SPELL_MODFLAG(ModuleFlag_Export, "export")
SPELL_MODFLAG(ModuleFlag_Import, "import")
SPELL_MACRO(MT_Expression, "Expression")
SPELL_MACRO(MT_Statement, "Statement")
SPELL_MACRO(MT_Typename, "Typename")
SPELL_KIND(CT_Invalid, "Invalid")
SPELL_KIND(CT_Untyped, "Untyped")
SPELL_KIND(CT_NewLine, "NewLine")
SPELL_KIND(CT_Comment, "Comment")
SPELL_KIND(CT_Access_Private, "Access_Private")
SPELL_KIND(CT_Access_Protected, "Access_Protected")
SPELL_KIND(CT_Access_Public, "Access_Public")
SPELL_KIND(CT_PlatformAttributes, "PlatformAttributes")
SPELL_KIND(CT_Class, "Class")
SPELL_KIND(CT_Class_Fwd, "Class_Fwd")
SPELL_KIND(CT_Class_Body, "Class_Body")
SPELL_KIND(CT_Constructor, "Constructor")
SPELL_KIND(CT_Constructor_Fwd, "Constructor_Fwd")
SPELL_KIND(CT_Destructor, "Destructor")
SPELL_KIND(CT_Destructor_Fwd, "Destructor_Fwd")
SPELL_KIND(CT_Enum, "Enum")
SPELL_KIND(CT_Enum_Fwd, "Enum_Fwd")
SPELL_KIND(CT_Enum_Body, "Enum_Body")
SPELL_KIND(CT_Enum_Class, "Enum_Class")
SPELL_KIND(CT_Enum_Class_Fwd, "Enum_Class_Fwd")
SPELL_KIND(CT_Execution, "Execution")
SPELL_KIND(CT_Export_Body, "Export_Body")
SPELL_KIND(CT_Extern_Linkage, "Extern_Linkage")
SPELL_KIND(CT_Extern_Linkage_Body, "Extern_Linkage_Body")
SPELL_KIND(CT_Friend, "Friend")
SPELL_KIND(CT_Function, "Function")
SPELL_KIND(CT_Function_Fwd, "Function_Fwd")
SPELL_KIND(CT_Function_Body, "Function_Body")
SPELL_KIND(CT_Global_Body, "Global_Body")
SPELL_KIND(CT_Module, "Module")
SPELL_KIND(CT_Namespace, "Namespace")
SPELL_KIND(CT_Namespace_Body, "Namespace_Body")
SPELL_KIND(CT_Operator, "Operator")
SPELL_KIND(CT_Operator_Fwd, "Operator_Fwd")
SPELL_KIND(CT_Operator_Member, "Operator_Member")
SPELL_KIND(CT_Operator_Member_Fwd, "Operator_Member_Fwd")
SPELL_KIND(CT_Operator_Cast, "Operator_Cast")
SPELL_KIND(CT_Operator_Cast_Fwd, "Operator_Cast_Fwd")
SPELL_KIND(CT_Parameters, "Parameters")
SPELL_KIND(CT_Parameters_Define, "Parameters_Define")
SPELL_KIND(CT_Preprocess_Define, "Preprocess_Define")
SPELL_KIND(CT_Preprocess_Include, "Preprocess_Include")
SPELL_KIND(CT_Preprocess_If, "Preprocess_If")
SPELL_KIND(CT_Preprocess_IfDef, "Preprocess_IfDef")
SPELL_KIND(CT_Preprocess_IfNotDef, "Preprocess_IfNotDef")
SPELL_KIND(CT_Preprocess_ElIf, "Preprocess_ElIf")
SPELL_KIND(CT_Preprocess_Else, "Preprocess_Else")
SPELL_KIND(CT_Preprocess_EndIf, "Preprocess_EndIf")
SPELL_KIND(CT_Preprocess_Pragma, "Preprocess_Pragma")
SPELL_KIND(CT_Specifiers, "Specifiers")
SPELL_KIND(CT_Struct, "Struct")
SPELL_KIND(CT_Struct_Fwd, "Struct_Fwd")
SPELL_KIND(CT_Struct_Body, "Struct_Body")
SPELL_KIND(CT_Template, "Template")
SPELL_KIND(CT_Typedef, "Typedef")
SPELL_KIND(CT_Typename, "Typename")
SPELL_KIND(CT_Union, "Union")
SPELL_KIND(CT_Union_Fwd, "Union_Fwd")
SPELL_KIND(CT_Union_Body, "Union_Body")
SPELL_KIND(CT_Using, "Using")
SPELL_KIND(CT_Using_Namespace, "Using_Namespace")
SPELL_KIND(CT_Variable, "Variable")
#undef SPELL_OPS
#undef SPELL_SPECS
#undef SPELL_TOKS
#undef SPELL_CODES
#undef SPELL_ACCESS
#undef SPELL_MODFLAG
#undef SPELL_MACRO
#undef SPELL_KIND
