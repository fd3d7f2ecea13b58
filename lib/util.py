"""small helpers shared by the rules"""

EXPRP = ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "CaseStmt", "DefaultStmt",
         "LabelStmt", "SwitchStmt")


def discarded(n):
    """the value of expression n is never looked at"""
    q = n
    while q.par is not None:
        pr = q.par
        if pr.k in ("CStyleCastExpr", "ImplicitCastExpr"):
            if pr.raw.get("ck") == "ToVoid":
                return True
            q = pr
            continue
        if pr.k in EXPRP:
            if pr.k in ("IfStmt", "WhileStmt", "SwitchStmt") and q is pr.ch[0]:
                return False
            if pr.k == "DoStmt" and q is pr.ch[1]:
                return False
            if pr.k == "ForStmt" and q is pr.ch[1]:
                return False
            if pr.k == "CompoundStmt" and pr.par is not None and pr.par.k == "StmtExpr" and \
                    pr.ch[-1] is q:
                q = pr.par
                continue
            return True
        if pr.k == "BinaryOperator" and pr.op == ",":
            if pr.ch[0] is q:
                return True
            q = pr
            continue
        return False
    return True


def root_decl(n):
    """the declaration an lvalue expression is rooted in"""
    n = n.strip()
    while n is not None:
        if n.k in ("MemberExpr", "ArraySubscriptExpr", "UnaryOperator", "ImplicitCastExpr",
                   "CStyleCastExpr"):
            n = n.ch[0].strip()
            continue
        break
    return n.decl if n is not None and n.k == "DeclRefExpr" else None
