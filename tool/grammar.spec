# The grammar the parser has to implement: what is accepted and which tree it becomes.

group C02

rule Expression func=ParseExpression root='1' =
    s=SimpleExpression
    rs+=( op=['>' '<' '<=' '>=' '=' '<>' 'IN' 'IS'] e=SimpleExpression => RelOpSimpleExpression{RelOp: val(op), SimpleExpression: e} )*
    => Expression{SimpleExpression: s, RelOpSimpleExpressions: rs} ;

rule SimpleExpression func=ParseSimpleExpression =
    u=['+' '-']? t=Term
    ts+=( op=['+' '-' 'OR' 'XOR'] e=Term => AddOpTerm{AddOp: val(op), Term: e} )*
    => SimpleExpression{UnaryOp: if(u, ptr(val(u))), Term: t, AddOpTerms: ts} ;

rule Term func=ParseTerm =
    f=Factor
    fs+=( op=['*' '/' 'DIV' 'MOD' 'AND' 'SHL' 'SHR' 'AS'] e=Factor => MulOpFactor{MulOp: val(op), Factor: e} )*
    => Term{Factor: f, MulOpFactors: fs} ;

rule ExprList = es+=Expression (',' es+=Expression)* => es ;

rule Factor func=ParseFactor =
    '@' d=Designator => Address{Designator: d}
  | '[' ( els+=SetElement (',' els+=SetElement)* )? ']' => SetConstructor{SetElements: els}
  | '(' e=Expression ')' => Parentheses{Expression: e}
  | 'NIL' => Nil{}
  | 'NOT' f=Factor => Not{Factor: f}
  | v=['TRUE' 'FALSE'] => ValueFactor{Value: raw(v)}
  | v=STR => StringFactor{Value: raw(v)}
  | v=[INT REAL] => NumberFactor{Value: raw(v)}
  | t=[IDENT:type - 'TRUE' 'FALSE'] '(' e=Expression ')' => TypeCast{TypeId: TypeId{Ident: ident(t), Ref: decl(t)}, Expression: e}
  | & [IDENT - 'TRUE' 'FALSE' IDENT:type] d=Designator ( '(' es=ExprList ')' )? => DesignatorFactor{Designator: d, ExprList: es}
  | & [IDENT:type - 'TRUE' 'FALSE'] d=!Designator ( '(' es=ExprList ')' )? => DesignatorFactor{Designator: d, ExprList: es} ;

rule SetElement func=ParseSetElement =
    e=Expression ('..' e2=Expression)? => SetElement{Expression: e, SubRangeEnd: e2} ;

rule Designator func=ParseDesignator =
    q=QualId
    is+=( '.' n=IDENT => DesignatorItemIdent{Ident: ident(n)}
        | '[' es=ExprList ']' => cast(DesignatorItemExprList, es)
        | '^' => DesignatorItemDereference{} )*
    => Designator{QualId: q, Items: is} ;

rule QualId func=ParseQualId sem='unit' =
    n=[IDENT - IDENT:uses IDENT:ns] => QualId{Ident: IdentRef{Ident: ident(n), Ref: decl(n)}}
  | u=[IDENT:uses IDENT:ns] '.' n=IDENT => QualId{NamespaceId: IdentRef{Ident: ident(u), Ref: decl(u)}, Ident: IdentRef{Ident: ident(n), Ref: member(n)}} ;

rule QualIds func=ParseQualIds = q+=QualId (',' q+=QualId)* => q ;

rule ConstExpr func=ParseConstExpr = Expression ;

group C01

rule CompoundStmt func=ParseCompoundStmt(true) = 'BEGIN' s=StmtList 'END' => CompoundStmt{StmtList: s} ;
rule CompoundStmtOpt func=ParseCompoundStmt(false) = 'BEGIN' s=StmtList 'END' => CompoundStmt{StmtList: s} | ;

rule StmtList = s+=Statement (';' s+=Statement)* ';'? => s ;

rule Statement func=ParseStatement =
    l=IDENT:label ':' b=StmtBody => Statement{LabelId: ident(l), Body: b}
  | & [ANY - IDENT:label] b=StmtBody => Statement{Body: b} ;

rule StmtBody =
    InheritedStmt | GotoStatement | CompoundStmt | IfStmt | CaseStmt | RepeatStmt | WhileStmt | ForStmt
  | WithStmt | TryStmt | RaiseStmt | AssemblerStatement | DesignatorStatement ;

rule DesignatorStatement func=ParseDesignatorStatement =
    d=Designator ':=' e=Expression => AssignStatement{Designator: d, Expression: e}
  | d=Designator ( '(' es=ExprList? ')' )? => CallStatement{Designator: d, ExprList: es} ;

rule InheritedStmt func=ParseInheritedStmt = 'INHERITED' => InheritedStatement{} ;
rule GotoStatement func=ParseGotoStatement = 'GOTO' l=IDENT => GotoStatement{LabelId: ident(l), Ref: decl(l)} ;

rule IfStmt func=ParseIfStmt = 'IF' c=Expression 'THEN' t=Statement ('ELSE' e=Statement)?
    => IfStmt{Condition: c, Then: t, Else: e} ;

rule CaseStmt func=ParseCaseStmt = 'CASE' e=Expression 'OF' s=CaseSelectors ('ELSE' l=StmtList)? 'END'
    => CaseStmt{Expression: e, Selectors: s, Else: l} ;
rule CaseSelectors func=ParseCaseSelectors = (s+=CaseSelector ';')+ => s ;
rule CaseSelector func=ParseCaseSelector = l=CaseLabels ':' s=Statement => CaseSelector{Labels: l, Statement: s} ;
rule CaseLabels func=ParseCaseLabels = l+=CaseLabel (',' l+=CaseLabel)* => l ;
rule CaseLabel func=ParseCaseLabel = a=ConstExpr ('..' b=ConstExpr)? => CaseLabel{ConstExpr: a, ExtraConstExpr: b} ;

rule RepeatStmt func=ParseRepeatStmt = 'REPEAT' s=StmtList 'UNTIL' c=Expression => RepeatStmt{StmtList: s, Condition: c} ;
rule WhileStmt func=ParseWhileStmt = 'WHILE' c=Expression 'DO' s=Statement => WhileStmt{Condition: c, Statement: s} ;
rule ForStmt func=ParseForStmt = 'FOR' q=QualId ':=' i=Expression ('TO' | d='DOWNTO') t=Expression 'DO' s=Statement
    => ForStmt{QualId: q, Initial: i, Terminal: t, Down: has(d), Statement: s} ;
rule WithStmt func=ParseWithStmt = 'WITH' q=QualIds 'DO' s=Statement => WithStmt{Objects: q, Statement: s} ;

rule TryStmt func=ParseTryStmt =
    'TRY' s=StmtList 'EXCEPT' b=ExceptionBlock => TryExceptStmt{Statements: s, ExceptionBlock: b}
  | 'TRY' s=StmtList 'FINALLY' f=StmtList 'END' => TryFinallyStmt{Statements1: s, Statements2: f} ;
rule ExceptionBlock func=ParseExceptionBlock =
    & [ANY - 'ON'] s=StmtList 'END' => ExceptionBlock{Else: s}
  | h=ExceptionBlockHandlers (';' | 'ELSE' s=StmtList)? 'END' => ExceptionBlock{Handlers: h, Else: s} ;
rule ExceptionBlockHandlers func=ParseExceptionBlockHandlers = h+=ExceptionBlockHandler (';'? h+=ExceptionBlockHandler)* ';'? => h ;
rule ExceptionBlockHandler func=ParseExceptionBlockHandler =
    'ON' $( h=HandlerDecl 'DO' s=Statement $) => ExceptionBlockHandler{Decl: h, Statement: s} ;
rule HandlerDecl =
    i=[IDENT - IDENT:type] ':' t=Type => ExceptionBlockHandlerDecl{Ident: ident(i), Type: t} ! declare(ExceptionBlockHandlerDecl{Ident: ident(i), Type: t})
  | & [IDENT:type 'STRING'] t=Type => ExceptionBlockHandlerDecl{Type: t} ;

rule RaiseStmt func=ParseRaiseStmt =
    'RAISE' => RaiseStmt{}
  | 'RAISE' & [ANY - 'AT'] o=Expression ('AT' a=Expression)? => RaiseStmt{Object: o, Address: a}
  | 'RAISE' 'AT' a=Expression => RaiseStmt{Address: a} ;

rule AssemblerStatement func=ParseAssemblerStatement = 'ASM' [ANY - 'END']* 'END' => AssemblerStatement{} ;

group C04

rule Type func=ParseType =
    EnumeratedType | PointerType | TypeForIdentifier | ConstSubrange | StrucType | ProcedureType | ClassOrClassRef | StringOfString ;

rule OrdinalType func=ParseTypeAsOrdinalType require='IsOrdinalType' = t=Type => t ;

rule EnumeratedType func=ParseEnumeratedType pre='first' =
    '(' els+=EnumElement (',' els+=EnumElement)* ')' => cast(EnumeratedType, els) ;
rule EnumElement = n=IDENT ('=' e=ConstExpr)?
    => EnumeratedTypeElement{Ident: ident(n), ConstExpr: e} ! declare(EnumeratedTypeElement{Ident: ident(n), ConstExpr: e}) ;

rule PointerType func=ParseCustomPointerType = '^' t=TypeId => CustomPointerType{TypeId: t} ;

rule TypeId func=ParseTypeId =
    u=IDENT:uses '.' n=IDENT => TypeId{UnitId: ident(u), Ident: ident(n), Ref: opt(member(n))}
  | n=[IDENT - IDENT:uses 'STRING'] => TypeId{Ident: ident(n), Ref: decl(n)}
  | n='STRING' => TypeId{Ident: ident(n), Ref: decl(n)} ;

rule TypeForIdentifier func=ParseTypeForIdentifier pre='ident' =
    u=IDENT:uses '.' n=IDENT => TypeId{UnitId: ident(u), Ident: ident(n), Ref: opt(member(n))}
  | t=['REAL' 'INTEGER' 'CHAR' 'ANSISTRING' - IDENT:uses] => TypeId{Ident: ident(t), Ref: embedded(t)}
  | n=[IDENT - IDENT:uses 'REAL' 'INTEGER' 'CHAR' 'ANSISTRING'] '..' e=ConstExpr
      => SubrangeType{Low: Expression{SimpleExpression: SimpleExpression{Term: Term{Factor: DesignatorFactor{Designator: Designator{QualId: QualId{Ident: IdentRef{Ident: ident(n), Ref: decl(n)}}}}}}}, High: e}
  | n=[IDENT - IDENT:uses 'REAL' 'INTEGER' 'CHAR' 'ANSISTRING'] => TypeId{Ident: ident(n), Ref: decl(n)} ;

rule ConstSubrange func=ParseConstSubrageType = & [INT REAL STR] a=ConstExpr '..' b=ConstExpr => SubrangeType{Low: a, High: b} ;

rule StringOfString func=ParseStringOfStringType pre='word' =
    t='STRING' => TypeId{Ident: ident(t), Ref: embedded(t)}
  | t='STRING' '[' e=ConstExpr ']' => FixedStringType{StringType: TypeId{Ident: ident(t), Ref: embedded(t)}, Length: e} ;

rule StrucType func=ParseStrucType =
    p='PACKED'? 'ARRAY' ( '[' xs+=OrdinalType (',' xs+=OrdinalType)* ']' )? 'OF' t=Type q='PACKED'?
      => ArrayType{IndexTypes: xs, BaseType: t, Packed: has(p, q)}
  | p='PACKED'? 'SET' 'OF' t=OrdinalType => SetType{OrdinalType: t, Packed: has(p)}
  | p='PACKED'? 'FILE' 'OF' t=TypeId => FileType{TypeId: t, Packed: has(p)}
  | p='PACKED'? 'RECORD' f=FieldList 'END' => RecType{FieldList: f, Packed: has(p)} ;

rule FieldList = ( fs+=FieldDecl (';' fs+=FieldDecl)* ( ';' v=VariantSection? )? | v=VariantSection )? => FieldList{FieldDecls: fs, VariantSection: v} ;
rule FieldDecl = n=IdentList ':' t=Type => FieldDecl{IdentList: n, Type: t} ;
rule IdentList = is+=( n=IDENT => ident(n) ) (',' is+=( n=IDENT => ident(n) ))* => is ;
rule VariantSection func=ParseVariantSection =
    'CASE' ( i=IDENT ':' )? & [IDENT] t=OrdinalType 'OF' ( vs+=RecVariant (';' vs+=RecVariant)* ';'? )?
      => VariantSection{Ident: ident(i), TypeId: t, RecVariants: vs} ;
rule RecVariant func=ParseRecVariant =
    cs+=ConstExpr (',' cs+=ConstExpr)* ':' '(' f=FieldList ')' => RecVariant{ConstExprs: cs, FieldList: f} ;

rule ProcedureType func=ParseProcedureType =
    'PROCEDURE' $( ps=FormalParameters? ('OF' o='OBJECT')? $) => ProcedureType{FunctionType: const(FtProcedure), FormalParameters: ps, OfObject: has(o)}
  | 'FUNCTION' $( ps=FormalParameters? ':' t=TypeId ('OF' o='OBJECT')? $) => ProcedureType{FunctionType: const(FtFunction), FormalParameters: ps, ReturnType: t, OfObject: has(o)} ;

group C05

define VISIBILITY 'PRIVATE' 'PROTECTED' 'PUBLIC' 'PUBLISHED'
define METHODDIRECTIVE 'ABSTRACT' 'VIRTUAL' 'OVERRIDE' 'OVERLOAD' 'REINTRODUCE'

rule ClassOrClassRef func=ParseClassTypeOrClassRefType =
    'CLASS' & [';'] => ForwardDeclaredClassType{}
  | 'CLASS' 'OF' n=[IDENT - IDENT:type] => CustomClassRefType{TypeId: TypeId{Ident: ident(n)}}
  | 'CLASS' 'OF' n=IDENT:type => CustomClassRefType{TypeId: TypeId{Ident: ident(n), Ref: decl(n)}}
  | 'CLASS' h=ClassHeritage? 'END' => CustomClassType{Heritage: h}
  | 'CLASS' h=ClassHeritage & [';'] => CustomClassType{Heritage: h}
  | 'CLASS' h=ClassHeritage? ( ms+=ClassMemberSection | ms+=VisibleMemberSection ) ms+=VisibleMemberSection* 'END' => CustomClassType{Heritage: h, Members: ms} ;
rule ClassHeritage = '(' hs+=TypeId (',' hs+=TypeId)* ')' => hs ;
rule ClassMemberSection =
    ( fs=!ClassFieldList ms=!ClassMethodList? ps=!ClassPropertyList? | ms=!ClassMethodList ps=!ClassPropertyList? | ps=!ClassPropertyList )
      => ClassMemberSection{Visibility: "default", ClassFieldList: fs, ClassMethodList: ms, ClassPropertyList: ps} ;
rule VisibleMemberSection =
    v=[VISIBILITY] fs=!ClassFieldList? ms=!ClassMethodList? ps=!ClassPropertyList?
      => ClassMemberSection{Visibility: upper(v), ClassFieldList: fs, ClassMethodList: ms, ClassPropertyList: ps} ;
rule ClassFieldList func=ParseClassFieldList strict='1' = & [ANY - VISIBILITY] fs+=ClassField (';' & [ANY - VISIBILITY] fs+=ClassField)* ';'? => fs | ;
rule ClassMethodList func=ParseClassMethodList strict='1' = (ms+=ClassMethod ';'?)+ => ms | ;
rule ClassPropertyList func=ParseClassPropertyList(*) strict='1' sem='member' = (ps+=ClassProperty ';'?)+ => ps | ;

rule ClassField func=ParseClassField = n=IdentList ':' t=Type => ClassField{IdentList: n, Type: t} ;

rule ClassMethod func=ParseClassMethod unfollow="'PROCEDURE' 'FUNCTION' 'CONSTRUCTOR' 'DESTRUCTOR' 'CLASS'" =
    $( c='CLASS'? h=ClassMethodHeading $) ds=MethodDirectives => ClassMethod{ClassMethod: has(c), Heading: h, Directives: ds} ;
rule MethodDirectives = ';'? ( ds+=( d=[METHODDIRECTIVE] => upper(d) ) (';' ds+=( d=[METHODDIRECTIVE] => upper(d) ))* ';'? )? => ds ;
rule ClassMethodHeading = FunctionHeading | ConstructorHeading | DestructorHeading ;
rule ConstructorHeading func=ParseConstructorHeading =
    'CONSTRUCTOR' n=IDENT ps=FormalParameters? => ConstructorHeading{Ident: ident(n), FormalParameters: ps} ;
rule DestructorHeading func=ParseDestructorHeading = 'DESTRUCTOR' n=IDENT => DestructorHeading{Ident: ident(n)} ;

rule ClassProperty func=ParseClassProperty(*) sem='member' =
    'PROPERTY' n=IDENT i=PropertyInterface? ('INDEX' x=ConstExpr)? ('READ' r=IDENT)? ('WRITE' w=IDENT)?
    s=Stored? d=Default? ('IMPLEMENTS' t=TypeId)?
    => ClassProperty{Ident: ident(n), Interface: i, Index: x,
         Read: if(r, IdentRef{Ident: ident(r), Ref: cmember(r)}), Write: if(w, IdentRef{Ident: ident(w), Ref: cmember(w)}),
         Stored: s, Default: d, Implements: t, Parent: inherit(n, i, x, r, w)} ;
rule Stored =
    'STORED' 'TRUE' => PropertyStoredSpecifier{Constant: ptr(true)}
  | 'STORED' 'FALSE' => PropertyStoredSpecifier{Constant: ptr(false)}
  | 'STORED' n=[IDENT - 'TRUE' 'FALSE'] => PropertyStoredSpecifier{IdentRef: IdentRef{Ident: ident(n), Ref: cmember(n)}} ;
rule Default = 'DEFAULT' e=ConstExpr => PropertyDefaultSpecifier{Value: e} | 'NODEFAULT' => PropertyDefaultSpecifier{NoDefault: ptr(true)} ;
rule PropertyInterface func=ParsePropertyInterface =
    ( $( ps=IndexParameters $) )? ':' t=TypeId => PropertyInterface{Parameters: ps, Type: t} ;

group C03

define DIRECTIVE 'ABSTRACT' 'CDECL' 'DYNAMIC' 'EXPORT' 'FAR' 'INDEX' 'LOCAL' 'MESSAGE' 'NAME' 'NEAR' 'OVERLOAD' 'OVERRIDE' 'PASCAL' 'REGISTER' 'REINTRODUCE' 'SAFECALL' 'STDCALL' 'VARARGS'

rule FormalParameters func=ParseFormalParameters('(',')') = '(' ( ps+=FormalParm (';' ps+=FormalParm)* )? ')' => ps ;
rule IndexParameters func=ParseFormalParameters('[',']') = '[' ( ps+=IndexParm (';' ps+=IndexParm)* )? ']' => ps ;
rule FormalParm func=ParseFormalParm(')') = o=['VAR' 'CONST' 'OUT']? p=Parameter
    => FormalParm{Opt: if(o, ptr(upper(o))), Parameter: p} ! declare(self) ;
rule IndexParm func=ParseFormalParm(']') = o=['VAR' 'CONST' 'OUT']? p=IndexParameter
    => FormalParm{Opt: if(o, ptr(upper(o))), Parameter: p} ! declare(self) ;
rule Parameter func=ParseParameter(')') = n=IdentList (':' t=ParameterType ('=' e=ConstExpr)? )? & [';' ')'] => Parameter{IdentList: n, Type: t, ConstExpr: e} ;
rule IndexParameter func=ParseParameter(']') = n=IdentList (':' t=ParameterType ('=' e=ConstExpr)? )? & [';' ']'] => Parameter{IdentList: n, Type: t, ConstExpr: e} ;
rule ParameterType =
    & [ANY - 'ARRAY'] t=Type => ParameterType{Type: t}
  | 'ARRAY' 'OF' ( & [ANY - 'CONST'] t=Type | 'CONST' ) => ParameterType{Type: t, IsArray: true} ;

rule FunctionHeading func=ParseFunctionHeading =
    'PROCEDURE' n=IDENT ps=FormalParameters? => FunctionHeading{Type: const(FtProcedure), Ident: ident(n), FormalParameters: ps}
  | 'FUNCTION' n=IDENT ps=FormalParameters? ':' t=TypeId => FunctionHeading{Type: const(FtFunction), Ident: ident(n), FormalParameters: ps, ReturnType: t} ;

rule ExternalOptions func=ParseExternalOptions sem='range' =
    'EXTERNAL' & [';'] => nil
  | 'EXTERNAL' l=STR & [';'] => ExternalOptions{LibraryName: raw(l)}
  | 'EXTERNAL' l=STR 'NAME' n=STR => ExternalOptions{LibraryName: raw(l), Name: ptr(raw(n))}
  | 'EXTERNAL' l=STR 'INDEX' i=INT => ExternalOptions{LibraryName: raw(l), Index: ptr(num(i))} ;

rule ExportedHeading func=ParseExportedHeading pre='first' =
    $( h=FunctionHeading ';' $) ( ds+=( d=[DIRECTIVE 'FORWARD'] ';' => upper(d) ) | o=ExternalOptions ds+=( ';' => "EXTERNAL" ) )*
      => ExportedHeading{FunctionHeading: h, Directives: ds, ExternalOptions: o} ! declare(self) ;

rule ConstSection func=ParseConstSection(true) unfollow="';'" = 'CONST' (cs+=ConstantDecl ';')+ => cs ;
rule ConstSectionOpt func=ParseConstSection(false) unfollow="';'" = 'CONST' (cs+=ConstantDecl ';')+ => cs | ;
rule ConstantDecl func=ParseConstantDecl =
    n=IDENT (':' t=Type)? '=' e=ConstExpr => ConstantDecl{Ident: ident(n), Type: t, ConstExpr: e} ! declare(self) ;

rule VarSection func=ParseVarSection(true) unfollow="';'" = 'VAR' vs+=VarDecl (';' vs+=VarDecl)* ';'? => vs ;
rule VarSectionOpt func=ParseVarSection(false) unfollow="';'" = 'VAR' vs+=VarDecl (';' vs+=VarDecl)* ';'? => vs | ;
rule VarDecl func=ParseVarDecl = ns=IdentList ':' t=Type ('ABSOLUTE' a=IDENT)? ('=' e=ConstExpr)?
    => VarDecl{IdentList: ns, Type: t, Absolute: if(a, absident(a)), ConstExpr: e} ! declare(self) ;

rule ThreadVarSection func=ParseThreadVarSection(true) unfollow="';'" = 'THREADVAR' (vs+=ThreadVarDecl ';')+ => vs ;
rule ThreadVarSectionOpt func=ParseThreadVarSection(false) unfollow="';'" = 'THREADVAR' (vs+=ThreadVarDecl ';')+ => vs | ;
rule ThreadVarDecl func=ParseThreadVarDecl = ns=IdentList ':' t=Type => ThreadVarDecl{IdentList: ns, Type: t} ! declare(self) ;

rule TypeSection func=ParseTypeSection(true) unfollow="';'" = 'TYPE' ts+=TypeDecl (';' ts+=TypeDecl)* ';'? => ts ;
rule TypeSectionOpt func=ParseTypeSection(false) unfollow="';'" = 'TYPE' ts+=TypeDecl (';' ts+=TypeDecl)* ';'? => ts | ;
rule TypeDecl func=ParseTypeDecl sem='forward' = n=IDENT '=' 'TYPE'? t=Type p=['PLATFORM' 'DEPRECATED' 'LIBRARY']?
    => TypeDecl{Ident: ident(n), Type: t, PortabilityDirective: if(p, ptr(lower(p)))} ! declare(self)
  | n=IDENT:type '=' 'TYPE'? t=Type p=['PLATFORM' 'DEPRECATED' 'LIBRARY']?
    => TypeDecl{Ident: ident(n), Type: t, PortabilityDirective: if(p, ptr(lower(p)))} ! declare(Decl{Ident: ident(n), Node: self}, raw(n)) ;

rule LabelDeclSection func=ParseLabelDeclSection = 'LABEL' n=IDENT ';' => LabelDeclSection{LabelId: ident(n)} ! declare(self) | ;

rule ExportsStmt func=ParseExportsStmt(true) = 'EXPORTS' is+=ExportsItem (',' is+=ExportsItem)* ';' => ExportsStmt{ExportsItems: is} ;
rule ExportsStmtOpt func=ParseExportsStmt(false) = 'EXPORTS' is+=ExportsItem (',' is+=ExportsItem)* ';' => ExportsStmt{ExportsItems: is} | ;
rule ExportsItem =
    n=IDENT ('NAME' a=ConstExpr ('INDEX' b=ConstExpr)? | 'INDEX' b=ConstExpr ('NAME' a=ConstExpr)? )? => ExportsItem{Ident: ident(n), Name: a, Index: b} ;
rule ExportsStmts func=ParseExportsStmts nonempty='1' = ( ss+=!ExportsStmtOpt )* => ss ;

rule DeclSections func=ParseDeclSections nonempty='1' = ( ss+=DeclSection ';'? )* => ss ;
rule DeclSection = !LabelDeclSection | !ConstSectionOpt | !TypeSectionOpt | !VarSectionOpt | !ThreadVarSectionOpt | !ProcedureDecl ;

rule ProcedureDecl func=ParseProcedureDeclSection =
    $( h=FunctionHeading ';' ( ds+=( d=[DIRECTIVE] ';' => upper(d) ) )* b=Block $) => FunctionDecl{FunctionHeading: h, Directives: ds, Block: b} ! declare(self)
  | $( h=FunctionHeading ';' ( ds+=( d=[DIRECTIVE] ';' => upper(d) ) )*
       ( ds+=( d='FORWARD' ';' => upper(d) ) | o=ExternalOptions ds+=( ';' => "EXTERNAL") )
       ( ds+=( d=[DIRECTIVE 'FORWARD'] ';' => upper(d) ) | o=ExternalOptions ds+=( ';' => "EXTERNAL") )* $)
      => FunctionDecl{FunctionHeading: h, Directives: ds, ExternalOptions: o} ! declare(self)
  | ;

rule Block func=ParseBlock = ds=DeclSections es=ExportsStmts b=BlockBody fs=ExportsStmts
    => Block{DeclSections: ds, ExportsStmts1: es, Body: b, ExportsStmts2: fs} ;
rule BlockBody = CompoundStmt | AssemblerStatement ;

group C06

define PORTABILITY 'PLATFORM' 'DEPRECATED' 'LIBRARY'

rule UsesClause func=ParseUsesClause strict='1' = 'USES' us+=UsesClauseItem (',' us+=UsesClauseItem)* & [';'] => us ;
rule UsesClauseItem = n=IDENT ('IN' s=STR)? => UsesClauseItem{Ident: ident(n), Path: if(s, ptr(raw(s)))} ! declare(self) ;

rule ProgramBlock func=ProgramParser.ParseProgramBlock sem='load' = ( u=UsesClause ';' )? b=Block => ProgramBlock{UsesClause: u, Block: b} ;
rule Program func=ProgramParser.ParseProgram root='1' = 'PROGRAM' n=IDENT ';' b=ProgramBlock & ['.']
    => Program{Path: path(), Ident: ident(n), ProgramBlock: b, DeclMap: _} ;

rule InterfaceDecl = TypeSection | VarSection | ThreadVarSection | ConstSection | ExportedHeading ;
rule InitSection func=UnitParser.ParseInitSection = 'INITIALIZATION' ss=StmtList ('FINALIZATION' fs=StmtList)?
    => InitSection{InitializationStmts: ss, FinalizationStmts: fs} ;
rule Unit func=UnitParser.ParseUnit open='1' root='1' =
    'UNIT' n=IDENT p=[PORTABILITY]? ';' 'INTERFACE' (u=UsesClause ';')? ( ds+=InterfaceDecl )*
    'IMPLEMENTATION' $( (v=UsesClause ';')? ss=DeclSections es=ExportsStmts ';'? i=InitSection? 'END' $) & ['.']
    => Unit{Path: path(), Ident: ident(n), PortabilityDirective: if(p, ptr(lower(p))), DeclMap: _,
         InterfaceSection: InterfaceSection{UsesClause: u, InterfaceDecls: ds},
         ImplementationSection: ImplementationSection{UsesClause: v, DeclSections: ss, ExportsStmts: es}, InitSection: i} ;
rule UnitLoad func=UnitParser.ProcessIdentAndIntfUses via='ProcessIntfBody,ProcessImplAndInit' result='Unit' open='1' root='1' =
    'UNIT' n=IDENT p=[PORTABILITY]? ';' 'INTERFACE' (u=UsesClause ';')? ( ds+=InterfaceDecl )*
    'IMPLEMENTATION' $( (v=UsesClause ';')? ss=DeclSections es=ExportsStmts ';'? i=InitSection? 'END' $) & ['.']
    => Unit{Path: path(), Ident: ident(n), PortabilityDirective: if(p, ptr(lower(p))), DeclMap: _,
         InterfaceSection: InterfaceSection{UsesClause: u, InterfaceDecls: ds},
         ImplementationSection: ImplementationSection{UsesClause: v, DeclSections: ss, ExportsStmts: es}, InitSection: i} ! declare(self) ;
