export OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_btl=self OMPI_MCA_rmaps_base_oversubscribe=1 OMP_NUM_THREADS=1 DEAL_II_NUM_THREADS=1 NATRIUM_DIR=/repo NATRIUM_HOME=/tmp/nh
