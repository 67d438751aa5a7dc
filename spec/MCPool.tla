------------------------------- MODULE MCPool -------------------------------
EXTENDS PoolIo
CONSTANT Size
MCPlan == IF Size = 0 THEN (1 :> {11, 12}) @@ (2 :> {21}) ELSE (1 :> {11, 12}) @@ (2 :> {21, 22})
=============================================================================
