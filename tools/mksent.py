#!/usr/bin/env python3
"""Derives sentences from the specification (WeedleDerive) and stores their token lists in
data/sent/<root>.xz.  They are inputs of the bulk families (lib/bulk.py); no verdict depends
on this file."""
import lzma, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from core import *

DEFS = ["CallbackDefinition", "CallbackInterfaceDefinition", "InterfaceDefinition", "InterfaceMixinDefinition",
        "NamespaceDefinition", "DictionaryDefinition", "PartialInterfaceDefinition",
        "PartialInterfaceMixinDefinition", "PartialDictionaryDefinition", "PartialNamespaceDefinition",
        "EnumDefinition", "TypedefDefinition", "IncludesStatementDefinition", "ImplementsDefinition"]
PLAN = {"Definition": 4, "Type": 4, "InterfaceMember": 4, "MixinMember": 4, "NamespaceMember": 4, "DictionaryMember": 4, "Argument": 4,
        "ArgumentList": 4, "ExtendedAttribute": 5, "ExtendedAttributeList": 5, "ReturnType": 3, "ConstType": 3, "AttributedType": 3,
        "DefaultValue": 3, "ConstValue": 3, "EnumValueList": 5, "Inheritance": 2, "IdentifierList": 5, "UnionType": 4, "UnionMemberType": 3,
        "RecordKeyType": 3, "NonAnyType": 3, "SingleType": 2, "Default": 3, "IdentifierOrString": 1, "Definitions": 3,
        "InterfaceMembers": 3, "MixinMembers": 3, "NamespaceMembers": 3, "DictionaryMembers": 3}
PLAN.update({n: 2 for n in DEFS})
PLAN.update({n: 2 for n in ["ConstMember", "AttributeInterfaceMember", "ConstructorInterfaceMember", "OperationInterfaceMember", "IterableInterfaceMember",
             "SingleTypedIterable", "DoubleTypedIterable", "AsyncIterableInterfaceMember", "SingleTypedAsyncIterable", "DoubleTypedAsyncIterable",
             "MaplikeInterfaceMember", "SetlikeInterfaceMember", "StringifierMember", "OperationMixinMember", "AttributeMixinMember", "ConstNamespaceMember",
             "OperationNamespaceMember", "AttributeNamespaceMember", "ExtendedAttributeArgList", "ExtendedAttributeNamedArgList", "ExtendedAttributeIdentList",
             "ExtendedAttributeIdent", "ExtendedAttributeWildCard", "ExtendedAttributeNoArgs", "SequenceType", "FrozenArrayType", "PromiseType", "RecordType",
             "AttributedNonAnyType", "IntegerType", "LongLongType", "LongType", "ShortType", "FloatingPointType", "FloatType", "DoubleType", "SingleArgument",
             "VariadicArgument", "IntegerLit", "FloatLit", "BooleanLit", "EmptyArrayLit", "EmptyDictionaryLit", "Special", "StringifierOrStatic",
             "StringifierOrInheritOrStatic"]})
BIG = {"Definition": 16, "InterfaceMember": 12, "Type": 14, "ArgumentList": 14, "Definitions": 12, "ExtendedAttributeList": 14}

if __name__ == "__main__":
    w, st = Work("sent"), Tlc()
    out = os.path.join(HERE, "data", "sent")
    os.makedirs(out, exist_ok=True)
    for n, b in PLAN.items():
        r = sorted({tuple(v["t"]) for v in derive(st, w, [[n, b]])}, key=lambda t: (len(t), t))
        with lzma.open(os.path.join(out, n + ".xz"), "wt", preset=9) as f:
            for t in r:
                f.write(" ".join(t) + "\n")
        log(n, b, len(r))
    for n, b in BIG.items():
        r = sorted({tuple(v["t"]) for v in derive(st, w, [[n, b]], simulate=1500, seed=5)}, key=lambda t: (len(t), t))
        r = [t for t in r if len(t) < 500]
        with lzma.open(os.path.join(out, n + ".big.xz"), "wt", preset=9) as f:
            for t in r:
                f.write(" ".join(t) + "\n")
        log("big", n, len(r))
    w.close()
