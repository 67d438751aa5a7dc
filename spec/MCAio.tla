------------------------------- MODULE MCAio -------------------------------
EXTENDS AioSched
CONSTANT Size
P1 == (1 :> {11}) @@ (2 :> {21, 22}) @@ (3 :> {31})
P2 == (1 :> {11, 12}) @@ (2 :> {21, 22}) @@ (3 :> {31})
P0 == (1 :> {11}) @@ (2 :> {21, 22})
MCPlan == IF Size = 0 THEN P0 ELSE IF Size = 1 THEN P1 ELSE P2
=============================================================================
