"""cases of the other properties whose calls C40 repeats"""
BORROWED = {
    "C01": """
        hafnian-glynn-1 hafnian-glynn-2 hafnian-glynn-3 hafnian-glynn-4 hafnian-glynn-5 hafnian-glynn-6
        hafnian-inclexcl-1 hafnian-inclexcl-2 hafnian-inclexcl-3 hafnian-inclexcl-4 hafnian-inclexcl-5
        hafnian-inclexcl-6 hafnian-recursive-1 hafnian-recursive-2 hafnian-recursive-3 hafnian-recursive-4
        hafnian-recursive-5 hafnian-recursive-6 line-glynn-6-loop line-glynn-7-loop line-glynn-8
        line-glynn-8-loop line-inclexcl-8 line-recursive-8 loop-hafnian-1 loop-hafnian-2 loop-hafnian-3
        loop-hafnian-4 loop-hafnian-5
    """.split(),
    "C02": """
        loop-rep-diag-2-glynn loop-rep-diag-2-ryser loop-rep-line-3-6-glynn loop-rep-mu-1-glynn
        loop-rep-mu-1-ryser loop-rep-mu-2-glynn loop-rep-mu-2-ryser loop_hafnian-2-glynn loop_hafnian-2-ryser
        loop_hafnian-3-glynn loop_hafnian-3-ryser reduction-1 reduction-2 reduction-3 rep-1-glynn rep-1-ryser
        rep-2-glynn rep-2-ryser rep-3-glynn rep-3-ryser rep-line-3-6-glynn rep-line-3-6-ryser
    """.split(),
    "C03": """
        banded-1-0 banded-1-0-loop banded-2-0 banded-2-0-loop banded-2-1 banded-2-1-loop banded-3-0
        banded-3-0-loop banded-3-1 banded-3-1-loop banded-3-2 banded-3-2-loop banded-4-0 banded-4-0-loop
        banded-4-1 banded-4-1-loop banded-4-2 banded-4-2-loop banded-4-3 banded-4-3-loop banded-5-1
        banded-5-1-loop banded-5-2 banded-5-2-loop banded-6-1 banded-6-1-loop banded-6-2 banded-6-2-loop
        banded-holes-4-2 banded-holes-4-2-loop banded-holes-5-2 banded-holes-5-2-loop banded-holes-6-1
        banded-holes-6-1-loop banded-holes-6-2 banded-holes-6-2-loop lowrank-1-1 lowrank-2-1 lowrank-2-2
        lowrank-2-3 lowrank-3-2 lowrank-4-1 lowrank-4-2 lowrank-4-3 lowrank-6-1 lowrank-cplx-2-2
        lowrank-cplx-4-1 sparse-1 sparse-2 sparse-3 sparse-4 sparse-5 sparse-6 sparse-empty sparse-loop-1
        sparse-loop-2 sparse-loop-3 sparse-loop-4 sparse-loop-5
    """.split(),
    "C04": """
        batch-1-glynn batch-1-ryser batch-2-glynn batch-2-ryser batch-3-glynn batch-3-line-glynn
        batch-3-line-ryser batch-3-ryser gamma-1-glynn gamma-1-ryser gamma-2-glynn gamma-2-ryser gamma-3-glynn
        gamma-3-line-ryser gamma-3-ryser hafnian_batched-1-6-0 hafnian_batched-1-6-0-renorm
        hafnian_batched-1-6-mu hafnian_batched-1-6-mu-renorm hafnian_batched-2-(3,5)-0
        hafnian_batched-2-(3,5)-0-renorm hafnian_batched-2-(3,5)-mu hafnian_batched-2-(3,5)-mu-renorm
        hafnian_batched-2-4-0 hafnian_batched-2-4-0-renorm hafnian_batched-2-4-mu
        hafnian_batched-2-4-mu-renorm hafnian_batched-3-(2,3,2)-0 hafnian_batched-3-(2,3,2)-0-renorm
        hafnian_batched-3-(2,3,2)-mu hafnian_batched-3-(2,3,2)-mu-renorm hafnian_batched-3-3-0
        hafnian_batched-3-3-0-renorm hafnian_batched-3-3-mu hafnian_batched-3-3-mu-renorm
    """.split(),
    "C05": """
        grad-1-5 grad-1-5-renorm grad-2-3 grad-2-3-renorm grad-2-4 grad-2-4-renorm grad-3-2 grad-3-2-renorm
        hermite-1-7-modified hermite-1-7-modified-renorm hermite-1-7-standard hermite-1-7-standard-renorm
        hermite-1-7-zero hermite-1-7-zero-renorm hermite-2-(2,5)-modified hermite-2-(2,5)-modified-renorm
        hermite-2-(2,5)-standard hermite-2-(2,5)-standard-renorm hermite-2-(2,5)-zero
        hermite-2-(2,5)-zero-renorm hermite-2-4-modified hermite-2-4-modified-renorm hermite-2-4-standard
        hermite-2-4-standard-renorm hermite-2-4-zero hermite-2-4-zero-renorm hermite-3-(2,3,1)-modified
        hermite-3-(2,3,1)-modified-renorm hermite-3-(2,3,1)-standard hermite-3-(2,3,1)-standard-renorm
        hermite-3-(2,3,1)-zero hermite-3-(2,3,1)-zero-renorm hermite-3-3-modified hermite-3-3-modified-renorm
        hermite-3-3-standard hermite-3-3-standard-renorm hermite-3-3-zero hermite-3-3-zero-renorm
        hermite-4-2-modified hermite-4-2-modified-renorm hermite-4-2-zero hermite-4-2-zero-renorm
        interferometer-1-5 interferometer-1-5-renorm interferometer-2-3 interferometer-2-3-renorm
    """.split(),
    "C06": """
        bbfg-0 bbfg-1 bbfg-2 bbfg-3 bbfg-4 bbfg-5 complex-bbfg-2 complex-bbfg-3 complex-bbfg-4 complex-ryser-2
        complex-ryser-3 complex-ryser-4 default-0 default-1 default-2 default-3 default-4 int-bbfg-2
        int-bbfg-3 int-bbfg-4 int-bbfg-5 int-ryser-2 int-ryser-3 int-ryser-4 int-ryser-5 line-bbfg-6
        line-bbfg-7 line-ryser-6 line-ryser-7 reject-list reject-nan reject-rect repeated-1 repeated-2
        repeated-3 repeated-tuple-2 ryser-0 ryser-1 ryser-2 ryser-3 ryser-4 ryser-5
    """.split(),
    "C07": """
        brs-0-1-1 brs-0-1-2 brs-1-1-1 brs-1-1-2 brs-1-2-2 brs-2-1-2 brs-line-1-2-3 brs-line-2-1-3
        brs-line-3-1-3 fock_prob-1-3 fock_prob-2-3 fock_prob-3-2 threshold-lossy1 threshold-u1 threshold-u2
        threshold-u2out1 threshold-u3 threshold-u3out2 ubrs-1-1 ubrs-1-2 ubrs-2-1 ubrs-2-2 ubrs-line-1-4
        ubrs-line-2-3 ubrs-line-3-3 ubrs-line-3-4 ubrs-line-4-4
    """.split(),
    "C08": """
        ltor-0-direct ltor-0-rec ltor-1-direct ltor-1-real-direct ltor-1-real-rec ltor-2-direct
        ltor-2-disp0-direct ltor-2-disp1-direct ltor-2-rec ltor-herm-1-direct threshold-1-disp
        threshold-1-disp-default threshold-1-zero threshold-2-alldisp threshold-2-disp threshold-2-zero
        threshold-3-zero tor-0-direct tor-0-rec tor-1-direct tor-1-rec tor-2-direct tor-2-rec tor-3-direct
        tor-3-rec tor-herm-1-direct tor-herm-1-rec tor-herm-2-direct tor-herm-2-rec
    """.split(),
    "C09": """
        charpoly-1 charpoly-2 charpoly-3 charpoly-cplx-2 powertrace-0-1 powertrace-0-4 powertrace-1-1
        powertrace-1-5 powertrace-2-2 powertrace-2-6 powertrace-3-3 powertrace-3-6 powertrace-cplx-0-3
        powertrace-cplx-1-4 powertrace-cplx-2-5
    """.split(),
    "C10": """
        lmtl-fast-1-all lmtl-fast-2-all lmtl-fast-2-block lmtl-fast-3-line lmtl-reference-1-all
        lmtl-reference-2-all lmtl-reference-2-block lmtl-reference-3-line mtl-fast-1-all mtl-fast-1-block
        mtl-fast-2-all mtl-fast-2-block mtl-fast-3-all mtl-fast-4-line mtl-reference-1-all
        mtl-reference-1-block mtl-reference-2-all mtl-reference-2-block mtl-reference-3-all
        mtl-reference-4-line
    """.split(),
    "C11": """
        hafnian-0 hafnian-1 hafnian-2 hafnian-3 hafnian-4 hafnian-5 hafnian-6 hafnian-7 hafnian-8
        interleaved-use loop-hafnian-0 loop-hafnian-1 loop-hafnian-2 loop-hafnian-3 loop-hafnian-4
        loop-hafnian-5 loop-hafnian-6 loop-hafnian-7 partitions-both-3 partitions-both-4 partitions-both-5
        partitions-both-6 partitions-pairs-3 partitions-pairs-4 partitions-pairs-5 partitions-pairs-6
        partitions-singles-3 partitions-singles-4 partitions-singles-5 partitions-singles-6 pmp-3 pmp-4 pmp-5
        pmp-6 rpmp-1 rpmp-2 rpmp-3 rspm-1 rspm-2 rspm-3 spm-3 spm-4 spm-5 spm-6 telephone
    """.split(),
    "C12": """
        amat-1-all amat-1-all-qmat amat-2-line amat-2-line-qmat covmat-1 covmat-2 covmat-3 displacements-1
        displacements-2 displacements-3 qmat-1 qmat-2 qmat-3 xmat
    """.split(),
    "C13": """
        reduced_gaussian-1 reduced_gaussian-2 reduced_gaussian-3 reduced_gaussian-reject-1
        reduced_gaussian-reject-2 reduced_gaussian-single-1 reduced_gaussian-single-2
        reduced_gaussian-single-3 reduced_gaussian-single-4 reduced_state-1 reduced_state-2 reduced_state-3
        reduced_state-reject-1 reduced_state-reject-2 reduced_state-single-1 reduced_state-single-2
        reduced_state-single-3 reduced_state-single-4
    """.split(),
    "C15": """
        beam_splitter expand-1-1 expand-1-2 expand-1-3 expand-2-2 expand-2-3 expand-2-4 expand-3-3 expand-int
        expand_passive interferometer-1 interferometer-2 interferometer-3 loss-1 loss-1-thermal loss-2
        loss-2-thermal loss-3 loss-3-thermal orderings passive-1x1 passive-1x2 passive-2x1 passive-2x2
        rotation squeezing squeezing-array squeezing0 two_mode_squeezing vectors
    """.split(),
    "C16": """
        rejects symplectic-eigenvals-1 symplectic-eigenvals-2 symplectic-eigenvals-3 takagi-diagonal-2
        takagi-diagonal-3 takagi-diagonal-3-singular takagi-zero williamson-rejects
    """.split(),
    "C17": """
        basic-1 basic-1-disp basic-2 basic-2-disp basic-3 basic-3-disp cumulant-2-line moment-1-all
        moment-1-all-disp moment-2-line moment-2-line-disp ordered-2-all product-1-all product-1-all-disp
        product-2-all product-2-all-disp product-2-line product-3-line
    """.split(),
    "C18": """
        cumulant-1 cumulant-1-disp cumulant-2 cumulant-2-contract cumulant-2-disp meanvar-1-all
        meanvar-1-all-default meanvar-2-1 meanvar-2-1-default meanvar-2-2 meanvar-3-1
    """.split(),
    "C19": """
        dm-1-0-const-5 dm-1-all-all-3 dm-1-all-const-3-default dm-1-all-zero-4 dm-2-0-const-2 dm-2-1-zero-2
        dm-post-2-0-const-2-1 dm-post-2-0-const-2-1-norm dm-post-2-0-zero-2-2 impure-amplitude impure-vector
        psi-1-0-all-3 psi-1-0-const-4-check psi-1-all-const-3 psi-1-all-zero-3-default psi-1-all-zero-4
        psi-2-0-const-2 psi-2-0-zero-2 psi-post-1-all-zero-3-2 psi-post-2-0-const-2-1-norm
        psi-post-2-0-zero-2-2
    """.split(),
    "C20": """
        marginals-1-1-3 marginals-10-2-2 marginals-2-1-2 marginals-2-2-3 marginals-3-2-2 marginals-3-3-2
        marginals-bad table-1-0-const-3 table-1-0-zero-4-pure table-1-1-zero-3-default table-2-0-const-2
        table-2-0-const-2-dask table-2-0-const-2-pure table-2-0-zero-2 table-2-0-zero-3-pure
        tvd-1-1-const-4-default tvd-1-all-zero-4 tvd-2-1-zero-3 tvd-3-0-const-3 tvd-invalid
    """.split(),
    "C21": """
        loss-1-5 loss-2-3 loss-3-2 loss-bad loss-channel loss-many-10 loss-many-9 loss_mat-1 loss_mat-2
        loss_mat-4 loss_mat-6 loss_mat-bad noise-1-4 noise-2-3 noise-3-2 noise-bad
    """.split(),
    "C22": """
        beamsplitter-1 beamsplitter-4 displacement-1 displacement-5 heisenberg-beamsplitter-3
        heisenberg-displacement-4 heisenberg-mzgate-3 heisenberg-squeezing-5 heisenberg-two_mode_squeezing-3
        mzgate-1 mzgate-3 squeezing-1 squeezing-2 squeezing-7 tensor-bad tensor-beamsplitter-2-const
        tensor-beamsplitter-3-zero tensor-beamsplitter-3-zero-sf tensor-identity-3-zero tensor-identity-4-all
        tensor-mzgate-3-zero tensor-squeeze-beam-2-const-sf tensor-squeezed-3-const tensor-squeezed-4-zero
        tensor-squeezing-4-zero-sf tensor-two_mode_squeezing-2-zero two_mode_squeezing-1 two_mode_squeezing-4
    """.split(),
    "C23": """
        grad-beamsplitter-1 grad-beamsplitter-4 grad-displacement-1 grad-displacement-6 grad-mzgate-1
        grad-mzgate-3 grad-squeezing-1 grad-squeezing-2 grad-squeezing-7 grad-two_mode_squeezing-1
        grad-two_mode_squeezing-4
    """.split(),
    "C24": """
        bad-both bad-cov bad-cov1 bad-mu1 bad-mu1-one bad-mu2 bad-mu2-one bad-rect mixed-1-0-const
        mixed-1-1-const-default mixed-1-1-zero pure-1-1-const-default pure-2-0-all pure-2-0-const thermal-1
        thermal-2
    """.split(),
    "C25": """
        entropy-1-1-default entropy-1-2 entropy-2-1 invalid neg-2-0 neg-2-0-default partition-1 partition-3
        product pure-2-0 pure-2-0-default pure-2-1 pure-3-0
    """.split(),
    "C26": """
        Amat-1 Amat-2 Qmat-1 Qmat-2 click_cumulant-1 click_cumulant-2 complex_to_real_displacements-1
        complex_to_real_displacements-2 entanglement_entropy-2 fidelity-1-pure fidelity-2-pure
        log_negativity-2 mean_clicks-1 mean_clicks-2 mean_photon_number-1 mu_to_alpha-1 mu_to_alpha-2
        normal_ordered_expectation-1 normal_ordered_expectation-2 phase-space-1 phase-space-2
        photon_number_covar-1 photon_number_covar-2 photon_number_covmat-1 photon_number_covmat-2
        photon_number_cumulant-1 photon_number_cumulant-2 photon_number_expectation-1
        photon_number_expectation-2 photon_number_mean-1 photon_number_mean-2 photon_number_mean_vector-1
        photon_number_mean_vector-2 photon_number_moment-1 photon_number_moment-2 s_ordered_expectation-1
        s_ordered_expectation-2 threshold_detection_prob-1 threshold_detection_prob-2 variance_clicks-1
        variance_clicks-2 vonneumann_entropy-1 vonneumann_entropy-2
    """.split(),
    "C31": """
        char-vacuum edge lossy-13-3-all lossy-16-6-eta lossy-24-4-all mixed
    """.split(),
}
