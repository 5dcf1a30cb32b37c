packageDeclaration : compatibilityVersionDirective? packageNameDefinition? importDeclaration* languageDirective* EOF ;
compatibilityVersionDirective : COMPAT_VERSION LPAREN STRING_LITERAL RPAREN SEMICOLON ;
packageNameDefinition : PACKAGE id (DOT id)* SEMICOLON ;
importDeclaration : IMPORT id DOT (id DOT)* (id | MULTIPLY) SEMICOLON ;
languageDirective : symbolDefinition | typeDeclaration ;
typeDeclaration : subtypeDeclaration | structureDeclaration | choiceDeclaration | unionDeclaration | enumDeclaration | bitmaskDeclaration | sqlTableDeclaration | sqlDatabaseDefinition | serviceDefinition | pubsubDefinition | instantiateDeclaration ;
symbolDefinition : constDefinition | ruleGroupDefinition ;
constDefinition : CONST typeInstantiation id ASSIGN expression SEMICOLON ;
ruleGroupDefinition : RULE_GROUP id LBRACE ruleDefinition* RBRACE SEMICOLON ;
ruleDefinition : RULE expression SEMICOLON ;
subtypeDeclaration : SUBTYPE typeReference id SEMICOLON ;
structureDeclaration : STRUCTURE id templateParameters? typeParameters? LBRACE structureFieldDefinition* functionDefinition* RBRACE SEMICOLON ;
structureFieldDefinition : fieldAlignment? fieldOffset? EXTEND? OPTIONAL? fieldTypeId fieldInitializer? fieldOptionalClause? fieldConstraint? SEMICOLON ;
fieldAlignment : ALIGN LPAREN expression RPAREN COLON ;
fieldOffset : expression COLON ;
fieldTypeId : PACKED? IMPLICIT? typeInstantiation id fieldArrayRange? ;
fieldArrayRange : LBRACKET expression? RBRACKET ;
fieldInitializer : ASSIGN expression ;
fieldOptionalClause : IF expression ;
fieldConstraint : COLON expression ;
choiceDeclaration : CHOICE id templateParameters? typeParameters ON expression LBRACE choiceCases* choiceDefault? functionDefinition* RBRACE SEMICOLON ;
choiceCases : choiceCase+ choiceFieldDefinition? SEMICOLON ;
choiceCase : CASE expression COLON ;
choiceDefault : DEFAULT COLON choiceFieldDefinition? SEMICOLON ;
choiceFieldDefinition : fieldTypeId fieldConstraint? ;
unionDeclaration : UNION id templateParameters? typeParameters? LBRACE unionFieldDefinition* functionDefinition* RBRACE SEMICOLON ;
unionFieldDefinition : choiceFieldDefinition SEMICOLON ;
enumDeclaration : ENUM typeInstantiation id LBRACE enumItem (COMMA enumItem)* COMMA? RBRACE SEMICOLON ;
enumItem : (DEPRECATED | REMOVED)? id (ASSIGN expression)? ;
bitmaskDeclaration : BITMASK typeInstantiation id LBRACE bitmaskValue (COMMA bitmaskValue)* COMMA? RBRACE SEMICOLON ;
bitmaskValue : id (ASSIGN expression)? ;
sqlTableDeclaration : SQL_TABLE id templateParameters? (USING id)? LBRACE sqlTableFieldDefinition* sqlConstraintDefinition? sqlWithoutRowId? RBRACE SEMICOLON ;
sqlTableFieldDefinition : SQL_VIRTUAL? typeInstantiation id sqlConstraint? SEMICOLON ;
sqlConstraintDefinition : sqlConstraint SEMICOLON ;
sqlConstraint : SQL expression ;
sqlWithoutRowId : SQL_WITHOUT_ROWID SEMICOLON ;
sqlDatabaseDefinition : SQL_DATABASE id LBRACE sqlDatabaseFieldDefinition+ RBRACE SEMICOLON ;
sqlDatabaseFieldDefinition : typeInstantiation id SEMICOLON ;
serviceDefinition : SERVICE id LBRACE serviceMethodDefinition* RBRACE SEMICOLON ;
serviceMethodDefinition : typeReference id LPAREN typeReference RPAREN SEMICOLON ;
pubsubDefinition : PUBSUB id LBRACE pubsubMessageDefinition* RBRACE SEMICOLON ;
pubsubMessageDefinition : topicDefinition typeReference id SEMICOLON ;
topicDefinition : (PUBLISH | SUBSCRIBE)? TOPIC LPAREN expression RPAREN ;
functionDefinition : FUNCTION functionType functionName LPAREN RPAREN functionBody ;
functionType : typeReference ;
functionName : id ;
functionBody : LBRACE RETURN expression SEMICOLON RBRACE ;
typeParameters : LPAREN parameterDefinition (COMMA parameterDefinition)* RPAREN ;
parameterDefinition : typeReference id ;
templateParameters : LT id (COMMA id)* GT ;
templateArguments : LT templateArgument (COMMA templateArgument)* GT ;
templateArgument : typeReference ;
instantiateDeclaration : INSTANTIATE typeReference id SEMICOLON ;
expression : LPAREN expression RPAREN | expression LPAREN RPAREN | expression LBRACKET expression RBRACKET | expression DOT id | ISSET LPAREN expression COMMA expression RPAREN | LENGTHOF LPAREN expression RPAREN | VALUEOF LPAREN expression RPAREN | NUMBITS LPAREN expression RPAREN | (PLUS | MINUS | BANG | TILDE) expression | expression (MULTIPLY | DIVIDE | MODULO) expression | expression (PLUS | MINUS) expression | expression (LSHIFT | GT GT) expression | expression (LT | LE | GT | GE) expression | expression (EQ | NE) expression | expression AND expression | expression XOR expression | expression OR expression | expression LOGICAL_AND expression | expression LOGICAL_OR expression | expression QUESTIONMARK expression COLON expression | literal | INDEX | id ;
literal : BINARY_LITERAL | OCTAL_LITERAL | DECIMAL_LITERAL | HEXADECIMAL_LITERAL | BOOL_LITERAL | STRING_LITERAL | FLOAT_LITERAL | DOUBLE_LITERAL ;
id : ID ;
typeReference : builtinType | qualifiedName templateArguments? ;
typeInstantiation : typeReference (typeArguments | dynamicLengthArgument)? ;
builtinType : intType | varintType | fixedBitFieldType | dynamicBitFieldType | boolType | stringType | floatType | externType | bytesType ;
qualifiedName : id (DOT id)* ;
typeArguments : LPAREN typeArgument (COMMA typeArgument)* RPAREN ;
typeArgument : EXPLICIT id | expression ;
dynamicLengthArgument : LT expression GT ;
intType : INT8 | INT16 | INT32 | INT64 | UINT8 | UINT16 | UINT32 | UINT64 ;
varintType : VARINT | VARINT16 | VARINT32 | VARINT64 | VARSIZE | VARUINT | VARUINT16 | VARUINT32 | VARUINT64 ;
fixedBitFieldType : (BIT_FIELD | INT_FIELD) COLON DECIMAL_LITERAL ;
dynamicBitFieldType : (BIT_FIELD | INT_FIELD) ;
boolType : BOOL ;
stringType : STRING ;
floatType : FLOAT16 | FLOAT32 | FLOAT64 ;
externType : EXTERN ;
bytesType : BYTES ;
