"""Writes known_findings.json: defects repaired in /repo (suppress nothing)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C03 40f45cd steepest descent ran a line search before it checked its stopping criteria, so a run at a critical point or with max_iterations reached evaluated more than allowed
C13 c6b779a conjugate gradient divided by zero at critical points and stalled after a rejected step
C04 fda0a79 a valid initial simplex of Nelder-Mead was rejected because its length was compared with dim instead of dim + 1
C02 868c274 particle swarm overwrote the initial population of its caller
C08 382c498 verbose runs with max_iterations 0 or infinity raised in the printer
C15 2771642 the truncated conjugate gradient divided by zero when the residual vanished
C12 c6b8d32 line searches accepted NaN costs and mis-estimated the first step after a rejected one
C12 beb008e a line search along a zero direction divided by zero
C01 196106b Nelder-Mead and particle swarm kept defaults computed for the first problem when reused on another
C07 a7b631b output at verbosity 0
C05 54745b5 NaN costs of initial points poisoned the best cost of the population methods; integer costs were truncated
C04 09ec954 the reported number of cost evaluations was not the number made
C03 da3a0af max_cost_evaluations was ignored by the gradient based optimizers
C14 3ee105b trust regions, Nelder-Mead and particle swarm logged no iterations
C11 fe99d25 metric and projection of the unitary group ignored complex conjugation
C11 ed7fade NaN distances and logarithms between (nearly) coincident points
C11 4b0cdbc sign error in the projection of the elliptope
C08 8fa1293 the Hestenes-Stiefel rule swallowed ZeroDivisionError raised by manifold operations
C07 a93112a Nelder-Mead printed a cost that was not the best one
C06 bc71a26 centroids in Nelder-Mead depended on the clock
C10 e420ddf generated derivatives failed on a product of a single manifold
C15 149e83e an exactly solved model led the truncated conjugate gradient to divide by zero
C15 abcb37b the truncated conjugate gradient accepted steps with NaN model values
C11 419a3a3 tangent spaces of sphere/subspace intersections were those of the sphere in to_tangent_space
C11 {fr} rounding errors in the factors of fixed-rank points were amplified by every retraction
C11 {shpd} rounding errors in the imaginary part of a determinant made SHPD points non-Hermitian
C11 {sub} directions made of rounding errors took iterates of sphere intersections off the subspace
C15 {tcg} non-finite models and rounding errors determined directions of the truncated conjugate gradient
C14 {nan} Nelder-Mead dropped a new best vertex when the worst one had a NaN cost
C10 {emb} Hessians on products with a group factor were evaluated along vectors that were not embedded
C10 {unused} PyTorch and TensorFlow Hessians failed for functions that are linear or do not depend on an argument
C13 {adapt} the adaptive line search repeated rejected or fruitless steps until its limits were reached
"""


def main():
    import subprocess
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True
    ).stdout
    def find(text):
        return next(l.split()[0] for l in log.splitlines() if text in l)
    text = FIXED.format(
        fr=find("factors of fixed-rank"), shpd=find("matrices of unit determinant"),
        adapt=find("repeat fruitless steps forever"),
        nan=find("dropped for NaN costs in Nelder-Mead"), unused=find("do not depend on an argument"), emb=find("embed tangent vectors of the factors"), tcg=find("at rounding errors and non-finite models"), sub=find("keep points in the subspace"),
    )
    entries = []
    for line in text.strip().splitlines():
        prop, commit, what = line.split(" ", 2)
        entries.append(f"fixed: property={prop} {commit} {what}")
    with open(f"{VERIF}/known_findings.json", "w") as f:
        json.dump({"findings": [], "fixed": entries}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
